From 376618ac0ed61d418427c90d9d29b546d9854d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:18 +0000
Subject: [PATCH 01/90] fix: zero-initialise the Cora struct

coraInit appends to co->globals and reads co->res before anything has set
them, so both worked on whatever malloc returned.
---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 44579b5..752df77 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -54,7 +54,7 @@ coraReturnSlowPath(Cora *co) {
 
 static Cora *
 coraNew() {
-	Cora *co = malloc(sizeof(Cora));
+	Cora *co = calloc(1, sizeof(Cora));
 	vecInit(&co->callstack, 64);
 	segmentStackInit(&co->stk);
 	co->ctx.bp = co->stk.begin;
-- 
2.43.0


From c38a609ccd2e7272950b019881aa6388ea758684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 02/90] fix: free every spent stack segment when control leaves
 it

A tail call, try or resume whose frame had been allocated at a segment
boundary leaves that segment behind.  Returning over it freed only one
segment and then trapped, and a throw went on with a stack pointer that did
not belong to the current segment and wrote past the end of it.
---
 src/runtime.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 752df77..aaee442 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -41,15 +41,18 @@ stackAllocSlowPath(Cora *co, int n) {
 
 void
 coraReturnSlowPath(Cora *co) {
-	assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
-	free(co->stk.begin);
-	vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
-	co->stk.data.v.len--;
+	// More than one segment may be spent: a frame that was allocated in a new
+	// segment and then left by a tail call, a try or a resume is still there.
+	do {
+		assert(vecLen(&co->stk.data) > 1);
+		assert(vecGet(&co->stk.data, vecLen(&co->stk.data) - 1) == co->stk.begin);
+		free(co->stk.begin);
+		vecSet(&co->stk.data, vecLen(&co->stk.data) - 1, NULL);
+		co->stk.data.v.len--;
 
-	co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
-	co->stk.end = co->stk.begin + INIT_STACK_SIZE;
-
-	assert(co->ctx.sp >= co->stk.begin && co->ctx.sp < co->stk.end);
+		co->stk.begin = vecGet(&co->stk.data, vecLen(&co->stk.data) - 1);
+		co->stk.end = co->stk.begin + INIT_STACK_SIZE;
+	} while (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end);
 }
 
 static Cora *
@@ -826,6 +829,9 @@ builtinThrow(Cora *co, int label, Obj *R) {
 	Frame beforeTry = vecGet(&co->callstack, vecLen(&co->callstack) - 1);
 	co->ctx.bp = beforeTry.bp;
 	co->ctx.sp = beforeTry.sp;
+	if (co->ctx.sp < co->stk.begin || co->ctx.sp >= co->stk.end) {
+		coraReturnSlowPath(co);
+	}
 	coraCall2(co, handler, v, clo);
 }
 
-- 
2.43.0


From a117ac3adaee1241401785dda9e648376257aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 03/90] fix: do not read past the size class table at the end
 of a sweep

---
 src/gc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gc.c b/src/gc.c
index 0a4c03e..24d5a5a 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -984,7 +984,9 @@ sweepSizeClass(GC *gc, struct runDoneProgress *pg) {
 	while (pg->sizeClassPos < sizeClassSZ) {
 		if (pg->b == NULL) {
 			pg->sizeClassPos++;
-			pg->b = gc->sizeClass[pg->sizeClassPos];
+			if (pg->sizeClassPos < sizeClassSZ) {
+				pg->b = gc->sizeClass[pg->sizeClassPos];
+			}
 			continue;
 		}
 		// Small step to finish one block in size class
-- 
2.43.0


From 49e662811c16f89c835e33b3eda9496af7fc13f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 04/90] fix: let a large object take the last blocks of an
 arena

An object that needs every block of an arena was refused by each fresh
arena, so the allocator mapped arenas until mmap failed and then crashed.
---
 src/gc.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index 24d5a5a..aa134a2 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -418,9 +418,6 @@ heapArenaAllocLarge(struct heapArena *ha, GC *gc, int slots) {
 		// printf("allocate from %p, curr=%d, slots=%d\n", ha, ha->curr, slots);
 		// The simple case.
 		if (ha->curr == ha->idx) {
-			if (ha->curr + slots >= BLOCKS_PER_HEAP) {
-				return NULL;
-			}
 			// printf("allocate from uninitialized ==%d\n", ha->curr);
 			struct scmFreeNode *n =
 				(struct scmFreeNode *)(ha->ptr + (ha->curr * MEM_BLOCK_SIZE));
-- 
2.43.0


From a96db2f6bcc0f50f58584dc3e225c0cc154d79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 05/90] fix: do not print collector progress to the program's
 stdout

---
 src/gc.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index aa134a2..b539c83 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -514,7 +514,6 @@ gcAllocLargeObject(GC *gc, int size) {
 		gc->large = ha->next;
 		if (gc->state == gcStateSweep && gc->progress.ha == ha) {
 			gc->progress.ha = gc->large;
-			printf("update gc progress in alloc large object\n");
 		}
 		// Link to heap list
 		struct heapArena *heapHead = gcGetHeapArena(gc);
@@ -576,7 +575,6 @@ gcAlloc(GC *gc, int size) {
 		// Update GC progress
 		if (gc->state == gcStateSweep && gc->progress.b == b) {
 			gc->progress.b = gc->sizeClass[slot];
-			printf("update gc progress in alloc object\n");
 		}
 	}
 
-- 
2.43.0


From bb3a55ccd304bac1036a38a801191ff9e40838d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 06/90] fix: curry and over-apply in apply, and make it a tail
 call

apply trapped unless the number of arguments was exactly the arity, so in the
interpreter ((+ 3) 4) crashed, and it left its own frame on the stack of
every interpreted call, so interpreted loops grew the stack without bound.
---
 src/runtime.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index aaee442..73677c8 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -371,23 +371,13 @@ builtinApply(Cora *co, int label, Obj *R) {
 	Obj args = R[2];
 	int nargs = listLen(args);
 
-	struct scmNative *f = ptr(fn);
-	assert(f->head.type == scmHeadNative);
-	if (f->required != nargs) {
-		// TODO
-		assert(false);
-	}
-
-	Obj *frame = stackAlloc(co, f->nframe);
-	frame[0] = fn;
-	int p = 1;
-	while (args != Nil) {
-		Obj tmp = car(args);
-		frame[p++] = tmp;
+	Obj argv[nargs + 1];
+	for (int i = 0; i < nargs; i++) {
+		argv[i] = car(args);
 		args = cdr(args);
 	}
-	co->ctx.fn = f->fn;
-	co->ctx.label = 0;
+	co->ctx.sp = R;
+	coraCall(co, fn, nargs, argv);
 }
 
 strBuf
-- 
2.43.0


From a94176e3f7c17ad580a106cbf1611c5b508ce503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 07/90] fix: keep the remaining arguments of an
 over-application on the stack

They lived in a C array while a nested coraRun evaluated the first call, so
the collector could reclaim them, and a throw in that call captured the exit
frame of the nested run.
---
 src/runtime.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 73677c8..59d4809 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -149,6 +149,14 @@ makeCurry(Cora *co, Obj fn, int nargs, Obj *args) {
 	return makeNaNPtr(&clo->head, TAG_NATIVE);
 }
 
+static void
+applyRest(Cora *co, int nargs, Obj *R) {
+	Obj args[nargs];
+	memcpy(args, R, nargs * sizeof(Obj));
+	co->ctx.sp = R;
+	coraCall(co, co->res, nargs, args);
+}
+
 static void
 coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 	struct scmNative *f = mustNative(fn);
@@ -158,17 +166,14 @@ coraDispatch(Cora *co, Obj fn, int nargs, Obj *args) {
 		Obj ret = makeCurry(co, fn, nargs, args);
 		coraReturn(co, ret);
 	} else {
-		// eval the first call and get the result;
-		Obj *R = stackAlloc(co, f->nframe);
-		R[0] = fn;
-		for (int i = 0; i < required; i++) {
-			R[i + 1] = args[i];
-		}
-		co->ctx.fn = f->fn;
-		co->ctx.label = 0;
-		coraRun(co);
-		// make the next call.
-		coraCall(co, co->res, nargs - required, args + required);
+		// keep the rest of the arguments on the stack, applyRest will apply
+		// the result of the first call to them.
+		int rest = nargs - required;
+		Obj *saved = stackAlloc(co, rest);
+		memcpy(saved, args + required, rest * sizeof(Obj));
+		saveCont(co, applyRest, rest, saved);
+		// make the first call.
+		coraCall(co, fn, required, args);
 	}
 	return;
 }
-- 
2.43.0


From 1881f0a4d1bdc0b1d3e59ba96bedb628855a4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 08/90] fix: make a resumed continuation forget the stack it
 gave back

The continuation object went on pointing at the segments and frames after
resume had put them back on the stack, so the collector read them after they
were freed, and values that only those frames held at the start of a marking
phase were missed once the frames had been overwritten.
---
 src/runtime.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 59d4809..540cef2 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -777,6 +777,8 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 
 	// Replace the current stack with the delimited continuation.
 	struct scmContinuation *cont = (struct scmContinuation *)ptr(contObj);
+	// A continuation can be resumed only once.
+	assert(cont->count > 0);
 	Frame *p = (Frame *)cont->data;
 	for (int i = 0; i < cont->len; i++) {
 		vecAppend(&co->callstack, p[i]);
@@ -789,6 +791,16 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 	co->stk.begin = stack;
 	co->stk.end = stack + INIT_STACK_SIZE;
 
+	// The stack owns the segments again, it will overwrite and free them.
+	// Forget them here, after a deletion barrier on what they hold.
+	for (int i = 0; i < cont->len; i++) {
+		for (Obj *q = p[i].bp; q < p[i].sp; q++) {
+			writeBarrierForIncremental(co->gc, q, *q);
+		}
+	}
+	cont->len = 0;
+	cont->count = 0;
+
 	Obj val = R[1];
 	coraReturn(co, val);
 }
-- 
2.43.0


From 4e8bf30d9f645fb1065ff8555a6eebcc79f15b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 09/90] fix: choose load's output path before the nested run

load kept a pointer to its file name argument across the compilation, during
which nothing keeps that string alive, and derived the .so path from it
afterwards.
---
 src/runtime.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index 540cef2..cfd577b 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -416,16 +416,7 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	char buf[BUFSIZE];
 	int cfileidx = unique;
 	unique++;
-	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
-	str tmpCFile = cstr(buf);
-	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
-	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
-	Obj fn = globalRef(co, bind);
-	coraCall2(co, fn, arg1, arg2);
-	coraRun(co);
-	// TODO: check res?
-	// Obj res = co->args[1];
-
+	// Decide this before the nested coraRun, filePath is not reachable in it.
 	strBuf tmp;
 	strBuf path = getCoraPath();
 	if (strCmp(filePathStr, toStr(path)) > 0) {
@@ -437,12 +428,22 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		tmp = strNew(30);
 		snprintf(toCStr(tmp), 30, "/tmp/cora-xxx-%d.so", cfileidx);
 	}
+	strFree(path);
+
+	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
+	str tmpCFile = cstr(buf);
+	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
+	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
+	Obj fn = globalRef(co, bind);
+	coraCall2(co, fn, arg1, arg2);
+	coraRun(co);
+	// TODO: check res?
+	// Obj res = co->args[1];
 
 	snprintf(buf, BUFSIZE,
 		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d.c -o "
 		"%s -ldl -lm -L%s -lcora",
 		coraSrcDir, cfileidx, toCStr(tmp), coraSrcDir);
-	strFree(path);
 	int exitCode = system(buf);
 	if (exitCode != 0) {
 		coraReturn(co, makeNumber(exitCode));
-- 
2.43.0


From e048cb49fd2c99b8e14cb05c34eaf2ad7fa200f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 10/90] fix: give a compilation unit's toplevel code a stack
 frame

Toplevel code saved the variables that are live across a call in slots
nobody had allocated, so the callee's frame overwrote them.  init.c and
lib/toc.c are regenerated.
---
 init.c       | 2923 ++++++++++++-------------
 lib/toc.c    | 5932 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |    8 +-
 3 files changed, 4473 insertions(+), 4390 deletions(-)

diff --git a/init.c b/init.c
index acc8e96..64a6b75 100644
--- a/init.c
+++ b/init.c
@@ -266,6 +266,7 @@ __symbolTable[159] = bindSymbol(co, intern("caar"));
 __symbolTable[160] = bindSymbol(co, intern("cadr"));
 __symbolTable[161] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
+stackAlloc(co, 1);
 co->ctx.fn = clofun95;
 co->ctx.label = 0;
 }
@@ -274,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512466_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512469_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512472_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512475_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512478_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512482_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512487_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512491_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512499_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512501_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512506_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3512536_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3512539_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3512542_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3512545_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3512548_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3512552_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3512557_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3512561_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3512569_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3512571_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3512576_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3512986_37= co->res;
-Obj _3512992_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513004_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513005_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513006_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513005_37);
-Obj _3513007_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513006_37);
-Obj _3513008_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513009_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513008_37);
-Obj _3513010_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513009_37);
-Obj _3513011_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513012_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513011_37);
-Obj _3513013_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513012_37);
-Obj _3513014_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513015_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513014_37);
-Obj _3513016_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513015_37);
-Obj _3513017_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513018_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513017_37);
-Obj _3513019_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513018_37);
-Obj _3513020_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513021_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513020_37);
-Obj _3513022_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513021_37);
-Obj _3513023_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513024_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513023_37);
-Obj _3513025_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513024_37);
-Obj _3513026_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513027_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513026_37);
-Obj _3513028_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513027_37);
-Obj _3513029_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513030_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513029_37);
-Obj _3513031_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513030_37);
-Obj _3513032_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513033_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513032_37);
-Obj _3513034_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513033_37);
-Obj _3513035_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513036_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513035_37);
-Obj _3513037_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513036_37);
-Obj _3513038_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513039_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513038_37);
-Obj _3513040_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513039_37);
-Obj _3513041_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513042_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513041_37);
-Obj _3513043_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513042_37);
-Obj _3513044_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513045_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513044_37);
-Obj _3513046_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513045_37);
-Obj _3513047_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513048_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513047_37);
-Obj _3513049_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513048_37);
-Obj _3513050_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513051_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513051_37);
-Obj _3513053_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513054_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513054_37);
-Obj _3513056_37 = makeCons(co->gc, _3513055_37, Nil);
-Obj _3513057_37 = makeCons(co->gc, _3513052_37, _3513056_37);
-Obj _3513058_37 = makeCons(co->gc, _3513049_37, _3513057_37);
-Obj _3513059_37 = makeCons(co->gc, _3513046_37, _3513058_37);
-Obj _3513060_37 = makeCons(co->gc, _3513043_37, _3513059_37);
-Obj _3513061_37 = makeCons(co->gc, _3513040_37, _3513060_37);
-Obj _3513062_37 = makeCons(co->gc, _3513037_37, _3513061_37);
-Obj _3513063_37 = makeCons(co->gc, _3513034_37, _3513062_37);
-Obj _3513064_37 = makeCons(co->gc, _3513031_37, _3513063_37);
-Obj _3513065_37 = makeCons(co->gc, _3513028_37, _3513064_37);
-Obj _3513066_37 = makeCons(co->gc, _3513025_37, _3513065_37);
-Obj _3513067_37 = makeCons(co->gc, _3513022_37, _3513066_37);
-Obj _3513068_37 = makeCons(co->gc, _3513019_37, _3513067_37);
-Obj _3513069_37 = makeCons(co->gc, _3513016_37, _3513068_37);
-Obj _3513070_37 = makeCons(co->gc, _3513013_37, _3513069_37);
-Obj _3513071_37 = makeCons(co->gc, _3513010_37, _3513070_37);
-Obj _3513072_37 = makeCons(co->gc, _3513007_37, _3513071_37);
-Obj _3513073_37 = primSet(co, getBinding(co, packageID, 69).name, _3513072_37);
-Obj _3513088_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513092_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513270_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513271_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513272_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513271_37);
-Obj _3513273_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513272_37);
-Obj _3513274_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513273_37);
-Obj _3513275_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513274_37);
-Obj _3513276_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513275_37);
-Obj _3513277_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513276_37);
-Obj _3513278_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513277_37);
-Obj _3513279_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513278_37);
-Obj _3513280_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513279_37);
-Obj _3513281_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513280_37);
-Obj _3513282_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513281_37);
-Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513282_37);
-Obj _3513284_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513283_37);
-Obj _3513285_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513284_37);
-Obj _3513286_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513285_37);
-Obj _3513287_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513286_37);
-Obj _3513288_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513287_37);
-Obj _3513289_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513288_37);
-Obj _3513290_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513289_37);
-Obj _3513291_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513290_37);
-Obj _3513292_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513291_37);
-Obj _3513293_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513294_37);
-Obj _3513296_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513295_37);
-Obj _3513297_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513296_37);
-Obj _3513298_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513297_37);
-Obj _3513299_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513298_37);
-Obj _3513300_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513300_37);
-Obj _3513302_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513301_37);
-Obj _3513303_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513302_37);
-Obj _3513304_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513303_37);
-Obj _3513305_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513304_37);
-Obj _3513306_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513305_37);
-Obj _3513307_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513307_37);
-Obj _3513309_37 = primSet(co, getBinding(co, packageID, 53).name, _3513308_37);
-Obj _3513310_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513311_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513312_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513313_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513314_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513315_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513316_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513317_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513318_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513319_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513320_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513321_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513322_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513323_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513324_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513326_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513327_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513328_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513329_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513330_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513331_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513332_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513333_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513334_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513335_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513336_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513337_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513338_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513339_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513341_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513342_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513343_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513344_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513345_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513346_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513347_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513348_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513348_37);
+Obj _3513056_37= co->res;
+Obj _3513062_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513074_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513075_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513076_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513075_37);
+Obj _3513077_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513076_37);
+Obj _3513078_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513079_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513078_37);
+Obj _3513080_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513079_37);
+Obj _3513081_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3513082_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513081_37);
+Obj _3513083_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513082_37);
+Obj _3513084_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513085_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513084_37);
+Obj _3513086_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513085_37);
+Obj _3513087_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513088_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513087_37);
+Obj _3513089_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513088_37);
+Obj _3513090_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513091_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513090_37);
+Obj _3513092_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513091_37);
+Obj _3513093_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513094_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513093_37);
+Obj _3513095_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513094_37);
+Obj _3513096_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513097_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513096_37);
+Obj _3513098_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513097_37);
+Obj _3513099_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513100_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513099_37);
+Obj _3513101_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513100_37);
+Obj _3513102_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513103_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513102_37);
+Obj _3513104_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513103_37);
+Obj _3513105_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513106_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513105_37);
+Obj _3513107_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513106_37);
+Obj _3513108_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3513109_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513108_37);
+Obj _3513110_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513109_37);
+Obj _3513111_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513112_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513111_37);
+Obj _3513113_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513112_37);
+Obj _3513114_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513115_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513114_37);
+Obj _3513116_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513115_37);
+Obj _3513117_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513118_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513117_37);
+Obj _3513119_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513118_37);
+Obj _3513120_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513121_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513120_37);
+Obj _3513122_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513121_37);
+Obj _3513123_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3513124_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513123_37);
+Obj _3513125_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513124_37);
+Obj _3513126_37 = makeCons(co->gc, _3513125_37, Nil);
+Obj _3513127_37 = makeCons(co->gc, _3513122_37, _3513126_37);
+Obj _3513128_37 = makeCons(co->gc, _3513119_37, _3513127_37);
+Obj _3513129_37 = makeCons(co->gc, _3513116_37, _3513128_37);
+Obj _3513130_37 = makeCons(co->gc, _3513113_37, _3513129_37);
+Obj _3513131_37 = makeCons(co->gc, _3513110_37, _3513130_37);
+Obj _3513132_37 = makeCons(co->gc, _3513107_37, _3513131_37);
+Obj _3513133_37 = makeCons(co->gc, _3513104_37, _3513132_37);
+Obj _3513134_37 = makeCons(co->gc, _3513101_37, _3513133_37);
+Obj _3513135_37 = makeCons(co->gc, _3513098_37, _3513134_37);
+Obj _3513136_37 = makeCons(co->gc, _3513095_37, _3513135_37);
+Obj _3513137_37 = makeCons(co->gc, _3513092_37, _3513136_37);
+Obj _3513138_37 = makeCons(co->gc, _3513089_37, _3513137_37);
+Obj _3513139_37 = makeCons(co->gc, _3513086_37, _3513138_37);
+Obj _3513140_37 = makeCons(co->gc, _3513083_37, _3513139_37);
+Obj _3513141_37 = makeCons(co->gc, _3513080_37, _3513140_37);
+Obj _3513142_37 = makeCons(co->gc, _3513077_37, _3513141_37);
+Obj _3513143_37 = primSet(co, getBinding(co, packageID, 69).name, _3513142_37);
+Obj _3513158_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513162_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3513340_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3513341_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj _3513342_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513341_37);
+Obj _3513343_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513342_37);
+Obj _3513344_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513343_37);
+Obj _3513345_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513344_37);
+Obj _3513346_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513345_37);
+Obj _3513347_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513346_37);
+Obj _3513348_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513347_37);
+Obj _3513349_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513348_37);
+Obj _3513350_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513349_37);
+Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513350_37);
+Obj _3513352_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513351_37);
+Obj _3513353_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513352_37);
+Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513353_37);
+Obj _3513355_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513354_37);
+Obj _3513356_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513355_37);
+Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513356_37);
+Obj _3513358_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513357_37);
+Obj _3513359_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513358_37);
+Obj _3513360_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513359_37);
+Obj _3513361_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513360_37);
+Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513361_37);
+Obj _3513363_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513362_37);
+Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513363_37);
+Obj _3513365_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513364_37);
+Obj _3513366_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513365_37);
+Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513366_37);
+Obj _3513368_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513367_37);
+Obj _3513369_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513368_37);
+Obj _3513370_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513369_37);
+Obj _3513371_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513370_37);
+Obj _3513372_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513371_37);
+Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513372_37);
+Obj _3513374_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513373_37);
+Obj _3513375_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513374_37);
+Obj _3513376_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513375_37);
+Obj _3513377_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513376_37);
+Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513377_37);
+Obj _3513379_37 = primSet(co, getBinding(co, packageID, 53).name, _3513378_37);
+Obj _3513380_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3513381_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3513382_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3513383_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3513384_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3513385_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3513386_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj _3513387_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj _3513388_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj _3513389_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj _3513390_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3513391_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3513392_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj _3513393_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3513394_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3513395_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3513396_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3513397_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3513398_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3513399_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3513400_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3513401_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3513402_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3513403_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3513404_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3513405_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3513406_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3513407_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3513408_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj _3513409_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj _3513410_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj _3513411_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj _3513412_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3513413_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj _3513414_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3513415_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3513416_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj _3513417_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj _3513418_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, _3513418_37);
 return;
 }
 case 2:
 {
-Obj _3512936_37= co->res;
-Obj _3512965_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3512966_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3513006_37= co->res;
+Obj _3513035_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3513036_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512919_37= co->res;
-Obj _3512933_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3512989_37= co->res;
+Obj _3513003_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512897_37= co->res;
-Obj _3512917_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3512967_37= co->res;
+Obj _3512987_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512866_37= co->res;
-Obj _3512867_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512868_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512871_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512895_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3512936_37= co->res;
+Obj _3512937_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3512938_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3512941_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3512965_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512758_37= co->res;
-Obj _3512810_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512811_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512816_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512820_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512821_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512829_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512830_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512836_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512847_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512853_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3512828_37= co->res;
+Obj _3512880_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3512881_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3512886_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3512890_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3512891_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3512899_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3512900_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3512906_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3512917_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3512923_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512653_37= co->res;
-Obj _3512675_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512708_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512721_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512743_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512757_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3512723_37= co->res;
+Obj _3512745_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3512778_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3512791_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3512813_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3512827_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512638_37= co->res;
-Obj _3512641_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512651_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3512708_37= co->res;
+Obj _3512711_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3512721_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512624_37= co->res;
-Obj _3512636_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3512694_37= co->res;
+Obj _3512706_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512610_37= co->res;
-Obj _3512622_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3512680_37= co->res;
+Obj _3512692_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512596_37= co->res;
+Obj _3512666_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512574_37= co->res;
-Obj _3512579_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512582_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512594_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3512644_37= co->res;
+Obj _3512649_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3512652_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3512664_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512564_37= co->res;
+Obj _3512634_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512562_37= co->res;
+Obj _3512632_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512507_37= co->res;
-Obj _3512508_37 = primSet(co, getBinding(co, packageID, 149).name, _3512507_37);
-Obj _3512514_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512515_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512516_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512517_37 = primGenSym(co);
-Obj _3512518_37 = primSet(co, getBinding(co, packageID, 145).name, _3512517_37);
-Obj _3512522_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512531_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512532_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512549_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512550_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512561_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3512577_37= co->res;
+Obj _3512578_37 = primSet(co, getBinding(co, packageID, 149).name, _3512577_37);
+Obj _3512584_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3512585_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3512586_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj _3512587_37 = primGenSym(co);
+Obj _3512588_37 = primSet(co, getBinding(co, packageID, 145).name, _3512587_37);
+Obj _3512592_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3512601_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3512602_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3512619_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3512620_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj _3512631_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -594,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512437_37 = R[1];
-Obj _3512438_37 = R[2];
-Obj _3512439_37 = R[3];
-Obj _3512440_37 = R[4];
-Obj _3512461_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512437_37, _3512438_37, _3512439_37, _3512440_37);
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+Obj _3512507_37 = R[1];
+Obj _3512508_37 = R[2];
+Obj _3512509_37 = R[3];
+Obj _3512510_37 = R[4];
+Obj _3512531_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512507_37, _3512508_37, _3512509_37, _3512510_37);
+R[1] = _3512510_37;
+R[2] = _3512531_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512510_37);
 return;
 }
 case 1:
 {
-Obj _3513269_37= co->res;
-Obj _3512461_37 = R[1];
-if (True == _3513269_37) {
+Obj _3513339_37= co->res;
+Obj _3512531_37 = R[1];
+if (True == _3513339_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512531_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, False);
+coraCall1(co, _3512531_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513268_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513268_37) {
+Obj _3513338_37= co->res;
+Obj _3512510_37 = R[1];
+Obj _3512531_37 = R[2];
+if (True == _3513338_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512531_37, True);
 return;
 } else {
-R[1] = _3512461_37;
+R[1] = _3512531_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512510_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513266_37= co->res;
-Obj _3512440_37 = R[1];
-Obj _3512461_37 = R[2];
-if (True == _3513266_37) {
+Obj _3513336_37= co->res;
+Obj _3512510_37 = R[1];
+Obj _3512531_37 = R[2];
+if (True == _3513336_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512531_37, True);
 return;
 } else {
-Obj _3513267_37 = primIsString(_3512440_37);
-if (True == _3513267_37) {
+Obj _3513337_37 = primIsString(_3512510_37);
+if (True == _3513337_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512461_37, True);
+coraCall1(co, _3512531_37, True);
 return;
 } else {
-R[1] = _3512440_37;
-R[2] = _3512461_37;
+R[1] = _3512510_37;
+R[2] = _3512531_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512440_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512510_37);
 return;
 }
 }
@@ -666,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512462_37 = R[1];
-if (True == _3512462_37) {
+Obj _3512532_37 = R[1];
+if (True == _3512532_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512442_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513254_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513254_37) {
-Obj _3513255_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513256_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513255_37);
-if (True == _3513256_37) {
-Obj _3513257_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513258_37 = PRIM_ISCONS(_3513257_37);
-if (True == _3513258_37) {
-Obj _3513259_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513260_37 = PRIM_CAR(_3513259_37);
-Obj x = _3513260_37;
-Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513262_37 = PRIM_CDR(_3513261_37);
-Obj _3513263_37 = PRIM_EQ(Nil, _3513262_37);
-if (True == _3513263_37) {
-Obj _3513264_37 = makeCons(co->gc, x, Nil);
-Obj _3513265_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513264_37);
-coraReturn(co, _3513265_37);
+Obj _3512512_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513324_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3513324_37) {
+Obj _3513325_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3513326_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513325_37);
+if (True == _3513326_37) {
+Obj _3513327_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513328_37 = PRIM_ISCONS(_3513327_37);
+if (True == _3513328_37) {
+Obj _3513329_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513330_37 = PRIM_CAR(_3513329_37);
+Obj x = _3513330_37;
+Obj _3513331_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513332_37 = PRIM_CDR(_3513331_37);
+Obj _3513333_37 = PRIM_EQ(Nil, _3513332_37);
+if (True == _3513333_37) {
+Obj _3513334_37 = makeCons(co->gc, x, Nil);
+Obj _3513335_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513334_37);
+coraReturn(co, _3513335_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512442_37);
+coraCall0(co, _3512512_37);
 return;
 }
 }
@@ -720,37 +721,37 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513093_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513093_37) {
+Obj _3513163_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513163_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512444_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513232_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513232_37) {
-Obj _3513233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513234_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513233_37);
-if (True == _3513234_37) {
-Obj _3513235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513236_37 = PRIM_ISCONS(_3513235_37);
-if (True == _3513236_37) {
-Obj _3513237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513238_37 = PRIM_CAR(_3513237_37);
-Obj args = _3513238_37;
-Obj _3513239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_ISCONS(_3513240_37);
-if (True == _3513241_37) {
-Obj _3513242_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513243_37 = PRIM_CDR(_3513242_37);
-Obj _3513244_37 = PRIM_CAR(_3513243_37);
-Obj body = _3513244_37;
-Obj _3513245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513246_37 = PRIM_CDR(_3513245_37);
-Obj _3513247_37 = PRIM_CDR(_3513246_37);
-Obj _3513248_37 = PRIM_EQ(Nil, _3513247_37);
-if (True == _3513248_37) {
+Obj _3512514_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513302_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513302_37) {
+Obj _3513303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513304_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513303_37);
+if (True == _3513304_37) {
+Obj _3513305_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513306_37 = PRIM_ISCONS(_3513305_37);
+if (True == _3513306_37) {
+Obj _3513307_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513308_37 = PRIM_CAR(_3513307_37);
+Obj args = _3513308_37;
+Obj _3513309_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513310_37 = PRIM_CDR(_3513309_37);
+Obj _3513311_37 = PRIM_ISCONS(_3513310_37);
+if (True == _3513311_37) {
+Obj _3513312_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513313_37 = PRIM_CDR(_3513312_37);
+Obj _3513314_37 = PRIM_CAR(_3513313_37);
+Obj body = _3513314_37;
+Obj _3513315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513316_37 = PRIM_CDR(_3513315_37);
+Obj _3513317_37 = PRIM_CDR(_3513316_37);
+Obj _3513318_37 = PRIM_EQ(Nil, _3513317_37);
+if (True == _3513318_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun92, 4, R);
@@ -758,35 +759,35 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512514_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512514_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512514_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512514_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512444_37);
+coraCall0(co, _3512514_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513095_37= co->res;
-if (True == _3513095_37) {
+Obj _3513165_37= co->res;
+if (True == _3513165_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -797,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj _3513094_37= co->res;
-if (True == _3513094_37) {
+Obj _3513164_37= co->res;
+if (True == _3513164_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -809,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj _3513250_37= co->res;
+Obj _3513320_37= co->res;
 Obj args = R[1];
-Obj _3513251_37 = makeCons(co->gc, _3513250_37, Nil);
-Obj _3513252_37 = makeCons(co->gc, args, _3513251_37);
-Obj _3513253_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513252_37);
-coraReturn(co, _3513253_37);
+Obj _3513321_37 = makeCons(co->gc, _3513320_37, Nil);
+Obj _3513322_37 = makeCons(co->gc, args, _3513321_37);
+Obj _3513323_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513322_37);
+coraReturn(co, _3513323_37);
 return;
 }
 case 4:
 {
-Obj _3513249_37= co->res;
+Obj _3513319_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513249_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513319_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
 return;
 }
 }
@@ -834,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512445_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513188_37) {
-Obj _3513189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513190_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513189_37);
-if (True == _3513190_37) {
-Obj _3513191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513192_37 = PRIM_ISCONS(_3513191_37);
-if (True == _3513192_37) {
-Obj _3513193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513194_37 = PRIM_CAR(_3513193_37);
-Obj _3513195_37 = PRIM_ISCONS(_3513194_37);
-if (True == _3513195_37) {
-Obj _3513196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513197_37 = PRIM_CAR(_3513196_37);
-Obj _3513198_37 = PRIM_CAR(_3513197_37);
-Obj _3513199_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513198_37);
-if (True == _3513199_37) {
-Obj _3513200_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513201_37 = PRIM_CAR(_3513200_37);
-Obj _3513202_37 = PRIM_CDR(_3513201_37);
-Obj _3513203_37 = PRIM_ISCONS(_3513202_37);
-if (True == _3513203_37) {
-Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513205_37 = PRIM_CAR(_3513204_37);
-Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_CAR(_3513206_37);
-Obj pkg = _3513207_37;
-Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513209_37 = PRIM_CAR(_3513208_37);
-Obj _3513210_37 = PRIM_CDR(_3513209_37);
-Obj _3513211_37 = PRIM_CDR(_3513210_37);
-Obj _3513212_37 = PRIM_EQ(Nil, _3513211_37);
-if (True == _3513212_37) {
-Obj _3513213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513214_37 = PRIM_CDR(_3513213_37);
-Obj _3513215_37 = PRIM_ISCONS(_3513214_37);
-if (True == _3513215_37) {
-Obj _3513216_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513217_37 = PRIM_CDR(_3513216_37);
-Obj _3513218_37 = PRIM_CAR(_3513217_37);
-Obj y = _3513218_37;
-Obj _3513219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513220_37 = PRIM_CDR(_3513219_37);
-Obj _3513221_37 = PRIM_CDR(_3513220_37);
-Obj _3513222_37 = PRIM_EQ(Nil, _3513221_37);
-if (True == _3513222_37) {
-Obj _3513223_37 = primIsString(pkg);
-if (True == _3513223_37) {
-Obj _3513224_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513225_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513224_37);
+Obj _3512515_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513258_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513258_37) {
+Obj _3513259_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513260_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513259_37);
+if (True == _3513260_37) {
+Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513262_37 = PRIM_ISCONS(_3513261_37);
+if (True == _3513262_37) {
+Obj _3513263_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513264_37 = PRIM_CAR(_3513263_37);
+Obj _3513265_37 = PRIM_ISCONS(_3513264_37);
+if (True == _3513265_37) {
+Obj _3513266_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513267_37 = PRIM_CAR(_3513266_37);
+Obj _3513268_37 = PRIM_CAR(_3513267_37);
+Obj _3513269_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513268_37);
+if (True == _3513269_37) {
+Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513271_37 = PRIM_CAR(_3513270_37);
+Obj _3513272_37 = PRIM_CDR(_3513271_37);
+Obj _3513273_37 = PRIM_ISCONS(_3513272_37);
+if (True == _3513273_37) {
+Obj _3513274_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513275_37 = PRIM_CAR(_3513274_37);
+Obj _3513276_37 = PRIM_CDR(_3513275_37);
+Obj _3513277_37 = PRIM_CAR(_3513276_37);
+Obj pkg = _3513277_37;
+Obj _3513278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513279_37 = PRIM_CAR(_3513278_37);
+Obj _3513280_37 = PRIM_CDR(_3513279_37);
+Obj _3513281_37 = PRIM_CDR(_3513280_37);
+Obj _3513282_37 = PRIM_EQ(Nil, _3513281_37);
+if (True == _3513282_37) {
+Obj _3513283_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513284_37 = PRIM_CDR(_3513283_37);
+Obj _3513285_37 = PRIM_ISCONS(_3513284_37);
+if (True == _3513285_37) {
+Obj _3513286_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513287_37 = PRIM_CDR(_3513286_37);
+Obj _3513288_37 = PRIM_CAR(_3513287_37);
+Obj y = _3513288_37;
+Obj _3513289_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513290_37 = PRIM_CDR(_3513289_37);
+Obj _3513291_37 = PRIM_CDR(_3513290_37);
+Obj _3513292_37 = PRIM_EQ(Nil, _3513291_37);
+if (True == _3513292_37) {
+Obj _3513293_37 = primIsString(pkg);
+if (True == _3513293_37) {
+Obj _3513294_37 = makeCons(co->gc, pkg, Nil);
+Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513294_37);
 R[1] = pkg;
 R[2] = y;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513225_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513295_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512445_37);
+coraCall0(co, _3512515_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513228_37= co->res;
-Obj _3513226_37 = R[1];
-Obj _3513229_37 = makeCons(co->gc, _3513228_37, Nil);
-Obj _3513230_37 = makeCons(co->gc, _3513226_37, _3513229_37);
-Obj _3513231_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513230_37);
-coraReturn(co, _3513231_37);
+Obj _3513298_37= co->res;
+Obj _3513296_37 = R[1];
+Obj _3513299_37 = makeCons(co->gc, _3513298_37, Nil);
+Obj _3513300_37 = makeCons(co->gc, _3513296_37, _3513299_37);
+Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513300_37);
+coraReturn(co, _3513301_37);
 return;
 }
 case 2:
 {
-Obj _3513226_37= co->res;
+Obj _3513296_37= co->res;
 Obj pkg = R[1];
 Obj y = R[2];
-Obj _3513227_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513226_37;
+Obj _3513297_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
+R[1] = _3513296_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513227_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513297_37, y);
 return;
 }
 }
@@ -969,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512446_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513180_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513180_37) {
-Obj _3513181_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513181_37;
-Obj _3513182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513182_37;
-Obj _3512463_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512446_37);
-Obj _3513186_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513186_37) {
+Obj _3512516_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513250_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513250_37) {
+Obj _3513251_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3513251_37;
+Obj _3513252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3513252_37;
+Obj _3512533_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512516_37);
+Obj _3513256_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
+if (True == _3513256_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3512533_37, True);
 return;
 } else {
-Obj _3513187_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513187_37) {
+Obj _3513257_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
+if (True == _3513257_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, True);
+coraCall1(co, _3512533_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512463_37, False);
+coraCall1(co, _3512533_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512446_37);
+coraCall0(co, _3512516_37);
 return;
 }
 }
@@ -1007,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512464_37 = R[1];
-if (True == _3512464_37) {
+Obj _3512534_37 = R[1];
+if (True == _3512534_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1020,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj _3513184_37= co->res;
-Obj _3513185_37 = makeCons(co->gc, closureRef(R[0], 0), _3513184_37);
-coraReturn(co, _3513185_37);
+Obj _3513254_37= co->res;
+Obj _3513255_37 = makeCons(co->gc, closureRef(R[0], 0), _3513254_37);
+coraReturn(co, _3513255_37);
 return;
 }
 case 2:
 {
-Obj _3513183_37= co->res;
+Obj _3513253_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513183_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513253_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1039,42 +1040,42 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512447_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513147_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513147_37) {
-Obj _3513148_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513149_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513148_37);
-if (True == _3513149_37) {
-Obj _3513150_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513151_37 = PRIM_ISCONS(_3513150_37);
-if (True == _3513151_37) {
-Obj _3513152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513153_37 = PRIM_CAR(_3513152_37);
-Obj a = _3513153_37;
-Obj _3513154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513155_37 = PRIM_CDR(_3513154_37);
-Obj _3513156_37 = PRIM_ISCONS(_3513155_37);
-if (True == _3513156_37) {
-Obj _3513157_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj _3513159_37 = PRIM_CAR(_3513158_37);
-Obj b = _3513159_37;
-Obj _3513160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513161_37 = PRIM_CDR(_3513160_37);
-Obj _3513162_37 = PRIM_CDR(_3513161_37);
-Obj _3513163_37 = PRIM_ISCONS(_3513162_37);
-if (True == _3513163_37) {
-Obj _3513164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513165_37 = PRIM_CDR(_3513164_37);
-Obj _3513166_37 = PRIM_CDR(_3513165_37);
-Obj _3513167_37 = PRIM_CAR(_3513166_37);
-Obj c = _3513167_37;
-Obj _3513168_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513169_37 = PRIM_CDR(_3513168_37);
-Obj _3513170_37 = PRIM_CDR(_3513169_37);
-Obj _3513171_37 = PRIM_CDR(_3513170_37);
-Obj _3513172_37 = PRIM_EQ(Nil, _3513171_37);
-if (True == _3513172_37) {
+Obj _3512517_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513217_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513217_37) {
+Obj _3513218_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513219_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513218_37);
+if (True == _3513219_37) {
+Obj _3513220_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513221_37 = PRIM_ISCONS(_3513220_37);
+if (True == _3513221_37) {
+Obj _3513222_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513223_37 = PRIM_CAR(_3513222_37);
+Obj a = _3513223_37;
+Obj _3513224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513225_37 = PRIM_CDR(_3513224_37);
+Obj _3513226_37 = PRIM_ISCONS(_3513225_37);
+if (True == _3513226_37) {
+Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513228_37 = PRIM_CDR(_3513227_37);
+Obj _3513229_37 = PRIM_CAR(_3513228_37);
+Obj b = _3513229_37;
+Obj _3513230_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513231_37 = PRIM_CDR(_3513230_37);
+Obj _3513232_37 = PRIM_CDR(_3513231_37);
+Obj _3513233_37 = PRIM_ISCONS(_3513232_37);
+if (True == _3513233_37) {
+Obj _3513234_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513235_37 = PRIM_CDR(_3513234_37);
+Obj _3513236_37 = PRIM_CDR(_3513235_37);
+Obj _3513237_37 = PRIM_CAR(_3513236_37);
+Obj c = _3513237_37;
+Obj _3513238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513239_37 = PRIM_CDR(_3513238_37);
+Obj _3513240_37 = PRIM_CDR(_3513239_37);
+Obj _3513241_37 = PRIM_CDR(_3513240_37);
+Obj _3513242_37 = PRIM_EQ(Nil, _3513241_37);
+if (True == _3513242_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun88, 2, R);
@@ -1082,57 +1083,57 @@ coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512447_37);
+coraCall0(co, _3512517_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513175_37= co->res;
-Obj _3513173_37 = R[1];
+Obj _3513245_37= co->res;
+Obj _3513243_37 = R[1];
 Obj a = R[2];
-Obj _3513176_37 = makeCons(co->gc, _3513175_37, Nil);
-Obj _3513177_37 = makeCons(co->gc, _3513173_37, _3513176_37);
-Obj _3513178_37 = makeCons(co->gc, a, _3513177_37);
-Obj _3513179_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513178_37);
-coraReturn(co, _3513179_37);
+Obj _3513246_37 = makeCons(co->gc, _3513245_37, Nil);
+Obj _3513247_37 = makeCons(co->gc, _3513243_37, _3513246_37);
+Obj _3513248_37 = makeCons(co->gc, a, _3513247_37);
+Obj _3513249_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513248_37);
+coraReturn(co, _3513249_37);
 return;
 }
 case 2:
 {
-Obj _3513173_37= co->res;
+Obj _3513243_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3513174_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513173_37;
+Obj _3513244_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3513243_37;
 R[2] = a;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513174_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513244_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
 return;
 }
 }
@@ -1142,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512448_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513121_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513121_37) {
-Obj _3513122_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513123_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513122_37);
-if (True == _3513123_37) {
-Obj _3513124_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513125_37 = PRIM_ISCONS(_3513124_37);
-if (True == _3513125_37) {
-Obj _3513126_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513127_37 = PRIM_CAR(_3513126_37);
-Obj path = _3513127_37;
-Obj _3513128_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513129_37 = PRIM_CDR(_3513128_37);
-Obj _3513130_37 = PRIM_ISCONS(_3513129_37);
-if (True == _3513130_37) {
-Obj _3513131_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513132_37 = PRIM_CDR(_3513131_37);
-Obj _3513133_37 = PRIM_CAR(_3513132_37);
-Obj import = _3513133_37;
-Obj _3513134_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513135_37 = PRIM_CDR(_3513134_37);
-Obj _3513136_37 = PRIM_CDR(_3513135_37);
-Obj _3513137_37 = PRIM_ISCONS(_3513136_37);
-if (True == _3513137_37) {
-Obj _3513138_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513139_37 = PRIM_CDR(_3513138_37);
-Obj _3513140_37 = PRIM_CDR(_3513139_37);
-Obj _3513141_37 = PRIM_CAR(_3513140_37);
-Obj body = _3513141_37;
-Obj _3513142_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513143_37 = PRIM_CDR(_3513142_37);
-Obj _3513144_37 = PRIM_CDR(_3513143_37);
-Obj _3513145_37 = PRIM_CDR(_3513144_37);
-Obj _3513146_37 = PRIM_EQ(Nil, _3513145_37);
-if (True == _3513146_37) {
+Obj _3512518_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513191_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513191_37) {
+Obj _3513192_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513193_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513192_37);
+if (True == _3513193_37) {
+Obj _3513194_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513195_37 = PRIM_ISCONS(_3513194_37);
+if (True == _3513195_37) {
+Obj _3513196_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513197_37 = PRIM_CAR(_3513196_37);
+Obj path = _3513197_37;
+Obj _3513198_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513199_37 = PRIM_CDR(_3513198_37);
+Obj _3513200_37 = PRIM_ISCONS(_3513199_37);
+if (True == _3513200_37) {
+Obj _3513201_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513202_37 = PRIM_CDR(_3513201_37);
+Obj _3513203_37 = PRIM_CAR(_3513202_37);
+Obj import = _3513203_37;
+Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513205_37 = PRIM_CDR(_3513204_37);
+Obj _3513206_37 = PRIM_CDR(_3513205_37);
+Obj _3513207_37 = PRIM_ISCONS(_3513206_37);
+if (True == _3513207_37) {
+Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513209_37 = PRIM_CDR(_3513208_37);
+Obj _3513210_37 = PRIM_CDR(_3513209_37);
+Obj _3513211_37 = PRIM_CAR(_3513210_37);
+Obj body = _3513211_37;
+Obj _3513212_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513213_37 = PRIM_CDR(_3513212_37);
+Obj _3513214_37 = PRIM_CDR(_3513213_37);
+Obj _3513215_37 = PRIM_CDR(_3513214_37);
+Obj _3513216_37 = PRIM_EQ(Nil, _3513215_37);
+if (True == _3513216_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512448_37);
+coraCall0(co, _3512518_37);
 return;
 }
 }
@@ -1219,79 +1220,79 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512449_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513097_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513097_37) {
-Obj _3513098_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513099_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513098_37);
-if (True == _3513099_37) {
-Obj _3513100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513101_37 = PRIM_ISCONS(_3513100_37);
-if (True == _3513101_37) {
-Obj _3513102_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513103_37 = PRIM_CAR(_3513102_37);
-Obj var = _3513103_37;
-Obj _3513104_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513105_37 = PRIM_CDR(_3513104_37);
-Obj _3513106_37 = PRIM_ISCONS(_3513105_37);
-if (True == _3513106_37) {
-Obj _3513107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513108_37 = PRIM_CDR(_3513107_37);
-Obj _3513109_37 = PRIM_CAR(_3513108_37);
-Obj val = _3513109_37;
-Obj _3513110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513111_37 = PRIM_CDR(_3513110_37);
-Obj _3513112_37 = PRIM_CDR(_3513111_37);
-Obj _3513113_37 = PRIM_EQ(Nil, _3513112_37);
-if (True == _3513113_37) {
+Obj _3512519_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513167_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513167_37) {
+Obj _3513168_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513169_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513168_37);
+if (True == _3513169_37) {
+Obj _3513170_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513171_37 = PRIM_ISCONS(_3513170_37);
+if (True == _3513171_37) {
+Obj _3513172_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513173_37 = PRIM_CAR(_3513172_37);
+Obj var = _3513173_37;
+Obj _3513174_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513175_37 = PRIM_CDR(_3513174_37);
+Obj _3513176_37 = PRIM_ISCONS(_3513175_37);
+if (True == _3513176_37) {
+Obj _3513177_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513178_37 = PRIM_CDR(_3513177_37);
+Obj _3513179_37 = PRIM_CAR(_3513178_37);
+Obj val = _3513179_37;
+Obj _3513180_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513181_37 = PRIM_CDR(_3513180_37);
+Obj _3513182_37 = PRIM_CDR(_3513181_37);
+Obj _3513183_37 = PRIM_EQ(Nil, _3513182_37);
+if (True == _3513183_37) {
 R[1] = val;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512519_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512449_37);
+coraCall0(co, _3512519_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513117_37= co->res;
-Obj _3513116_37 = R[1];
-Obj _3513118_37 = makeCons(co->gc, _3513117_37, Nil);
-Obj _3513119_37 = makeCons(co->gc, _3513116_37, _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513119_37);
-coraReturn(co, _3513120_37);
+Obj _3513187_37= co->res;
+Obj _3513186_37 = R[1];
+Obj _3513188_37 = makeCons(co->gc, _3513187_37, Nil);
+Obj _3513189_37 = makeCons(co->gc, _3513186_37, _3513188_37);
+Obj _3513190_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513189_37);
+coraReturn(co, _3513190_37);
 return;
 }
 case 2:
 {
-Obj _3513114_37= co->res;
+Obj _3513184_37= co->res;
 Obj val = R[1];
-Obj var1 = _3513114_37;
-Obj _3513115_37 = makeCons(co->gc, var1, Nil);
-Obj _3513116_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513115_37);
-R[1] = _3513116_37;
+Obj var1 = _3513184_37;
+Obj _3513185_37 = makeCons(co->gc, var1, Nil);
+Obj _3513186_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513185_37);
+R[1] = _3513186_37;
 saveCont(co, clofun86, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
 return;
@@ -1309,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj _3513096_37= co->res;
+Obj _3513166_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513096_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513166_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1328,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj _3513090_37= co->res;
-Obj _3513091_37 = primNot(_3513090_37);
-coraReturn(co, _3513091_37);
+Obj _3513160_37= co->res;
+Obj _3513161_37 = primNot(_3513160_37);
+coraReturn(co, _3513161_37);
 return;
 }
 case 2:
 {
-Obj _3513089_37= co->res;
+Obj _3513159_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513089_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513159_37);
 return;
 }
 }
@@ -1347,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512432_37 = R[1];
-Obj _3512433_37 = R[2];
-Obj _3513074_37 = PRIM_EQ(Nil, _3512433_37);
-if (True == _3513074_37) {
+Obj _3512502_37 = R[1];
+Obj _3512503_37 = R[2];
+Obj _3513144_37 = PRIM_EQ(Nil, _3512503_37);
+if (True == _3513144_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512435_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512433_37, _3512432_37);
-Obj _3513078_37 = PRIM_ISCONS(_3512433_37);
-if (True == _3513078_37) {
-Obj _3513079_37 = PRIM_CAR(_3512433_37);
-Obj _3513080_37 = PRIM_ISCONS(_3513079_37);
-if (True == _3513080_37) {
-Obj _3513081_37 = PRIM_CAR(_3512433_37);
-Obj _3513082_37 = PRIM_CAR(_3513081_37);
-Obj x = _3513082_37;
-Obj _3513083_37 = PRIM_CAR(_3512433_37);
-Obj _3513084_37 = PRIM_CDR(_3513083_37);
-Obj y = _3513084_37;
-Obj _3513085_37 = PRIM_CDR(_3512433_37);
-Obj _3513086_37 = PRIM_EQ(_3512432_37, x);
-if (True == _3513086_37) {
-Obj _3513087_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513087_37);
+Obj _3512505_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512503_37, _3512502_37);
+Obj _3513148_37 = PRIM_ISCONS(_3512503_37);
+if (True == _3513148_37) {
+Obj _3513149_37 = PRIM_CAR(_3512503_37);
+Obj _3513150_37 = PRIM_ISCONS(_3513149_37);
+if (True == _3513150_37) {
+Obj _3513151_37 = PRIM_CAR(_3512503_37);
+Obj _3513152_37 = PRIM_CAR(_3513151_37);
+Obj x = _3513152_37;
+Obj _3513153_37 = PRIM_CAR(_3512503_37);
+Obj _3513154_37 = PRIM_CDR(_3513153_37);
+Obj y = _3513154_37;
+Obj _3513155_37 = PRIM_CDR(_3512503_37);
+Obj _3513156_37 = PRIM_EQ(_3512502_37, x);
+if (True == _3513156_37) {
+Obj _3513157_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3513157_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512435_37);
+coraCall0(co, _3512505_37);
 return;
 }
 }
@@ -1396,11 +1397,11 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513075_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513075_37) {
-Obj _3513076_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513077_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513077_37;
+Obj _3513145_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513145_37) {
+Obj _3513146_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513147_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3513147_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
 return;
@@ -1417,24 +1418,24 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512427_37 = R[1];
-Obj _3512428_37 = R[2];
-Obj _3512429_37 = R[3];
-Obj _3512993_37 = PRIM_EQ(Nil, _3512429_37);
-if (True == _3512993_37) {
+Obj _3512497_37 = R[1];
+Obj _3512498_37 = R[2];
+Obj _3512499_37 = R[3];
+Obj _3513063_37 = PRIM_EQ(Nil, _3512499_37);
+if (True == _3513063_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512427_37, _3512428_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512497_37, _3512498_37);
 return;
 } else {
-Obj _3512994_37 = PRIM_ISCONS(_3512429_37);
-if (True == _3512994_37) {
-Obj _3512995_37 = PRIM_CAR(_3512429_37);
-Obj import = _3512995_37;
-Obj _3512996_37 = PRIM_CDR(_3512429_37);
-Obj more = _3512996_37;
+Obj _3513064_37 = PRIM_ISCONS(_3512499_37);
+if (True == _3513064_37) {
+Obj _3513065_37 = PRIM_CAR(_3512499_37);
+Obj import = _3513065_37;
+Obj _3513066_37 = PRIM_CDR(_3512499_37);
+Obj more = _3513066_37;
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512497_37;
+R[3] = _3512498_37;
 R[4] = more;
 saveCont(co, clofun81, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
@@ -1448,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj _3513003_37= co->res;
+Obj _3513073_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513003_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513073_37);
 return;
 }
 case 2:
 {
-Obj _3513002_37= co->res;
+Obj _3513072_37= co->res;
 Obj import = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513002_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513072_37);
 return;
 }
 case 3:
 {
-Obj _3513001_37= co->res;
+Obj _3513071_37= co->res;
 Obj import = R[1];
 R[1] = import;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513001_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513071_37);
 return;
 }
 case 4:
 {
-Obj _3513000_37= co->res;
+Obj _3513070_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512497_37 = R[2];
+Obj _3512498_37 = R[3];
 Obj more = R[4];
-if (True == _3513000_37) {
+if (True == _3513070_37) {
 R[1] = import;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512427_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512497_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512427_37, _3512428_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512497_37, _3512498_37, more);
 return;
 }
 }
 case 5:
 {
-Obj _3512999_37= co->res;
+Obj _3513069_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512497_37 = R[2];
+Obj _3512498_37 = R[3];
 Obj more = R[4];
-Obj export = _3512999_37;
+Obj export = _3513069_37;
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512497_37;
+R[3] = _3512498_37;
 R[4] = more;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512427_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512497_37, export);
 return;
 }
 case 6:
 {
-Obj _3512998_37= co->res;
+Obj _3513068_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512497_37 = R[2];
+Obj _3512498_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512497_37;
+R[3] = _3512498_37;
 R[4] = more;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3512998_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513068_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3512997_37= co->res;
+Obj _3513067_37= co->res;
 Obj import = R[1];
-Obj _3512427_37 = R[2];
-Obj _3512428_37 = R[3];
+Obj _3512497_37 = R[2];
+Obj _3512498_37 = R[3];
 Obj more = R[4];
 R[1] = import;
-R[2] = _3512427_37;
-R[3] = _3512428_37;
+R[2] = _3512497_37;
+R[3] = _3512498_37;
 R[4] = more;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512997_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513067_37);
 return;
 }
 }
@@ -1543,8 +1544,8 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3512987_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3512987_37) {
+Obj _3513057_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3513057_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1557,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj _3512991_37= co->res;
+Obj _3513061_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3512991_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513061_37);
 return;
 }
 case 2:
 {
-Obj _3512990_37= co->res;
+Obj _3513060_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3512990_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513060_37);
 return;
 }
 case 3:
 {
-Obj _3512989_37= co->res;
+Obj _3513059_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3512989_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513059_37);
 return;
 }
 case 4:
 {
-Obj _3512988_37= co->res;
+Obj _3513058_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3512988_37) {
+if (True == _3513058_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1609,26 +1610,26 @@ return;
 }
 case 1:
 {
-Obj _3512969_37= co->res;
+Obj _3513039_37= co->res;
 Obj path = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3512969_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3513039_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
 return;
 }
 case 2:
 {
-Obj _3512968_37= co->res;
+Obj _3513038_37= co->res;
 Obj path = R[1];
 R[1] = path;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3512968_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513038_37);
 return;
 }
 case 3:
 {
-Obj _3512967_37= co->res;
+Obj _3513037_37= co->res;
 Obj sexp = R[1];
-Obj path = _3512967_37;
+Obj path = _3513037_37;
 R[1] = path;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
@@ -1644,41 +1645,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3512970_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3513040_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3512970_37;
+R[3] = _3513040_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3512980_37= co->res;
-Obj _3512970_37 = R[1];
-Obj _3512981_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3512980_37);
-Obj _3512982_37 = makeCons(co->gc, _3512981_37, Nil);
-Obj _3512983_37 = makeCons(co->gc, _3512970_37, _3512982_37);
-Obj _3512984_37 = makeCons(co->gc, closureRef(R[0], 0), _3512983_37);
-Obj _3512985_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3512984_37);
-coraReturn(co, _3512985_37);
+Obj _3513050_37= co->res;
+Obj _3513040_37 = R[1];
+Obj _3513051_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513050_37);
+Obj _3513052_37 = makeCons(co->gc, _3513051_37, Nil);
+Obj _3513053_37 = makeCons(co->gc, _3513040_37, _3513052_37);
+Obj _3513054_37 = makeCons(co->gc, closureRef(R[0], 0), _3513053_37);
+Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513054_37);
+coraReturn(co, _3513055_37);
 return;
 }
 case 2:
 {
-Obj _3512973_37= co->res;
+Obj _3513043_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3512970_37 = R[3];
-Obj _3512974_37 = makeCons(co->gc, export, Nil);
-Obj _3512975_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3512974_37);
-Obj _3512976_37 = makeCons(co->gc, _3512975_37, Nil);
-Obj _3512977_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3512976_37);
-Obj _3512978_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512977_37);
-Obj _3512979_37 = makeCons(co->gc, _3512978_37, body);
-R[1] = _3512970_37;
+Obj _3513040_37 = R[3];
+Obj _3513044_37 = makeCons(co->gc, export, Nil);
+Obj _3513045_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513044_37);
+Obj _3513046_37 = makeCons(co->gc, _3513045_37, Nil);
+Obj _3513047_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513046_37);
+Obj _3513048_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513047_37);
+Obj _3513049_37 = makeCons(co->gc, _3513048_37, body);
+R[1] = _3513040_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512973_37, _3512979_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513043_37, _3513049_37);
 return;
 }
 }
@@ -1689,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3512971_37 = makeCons(co->gc, imp, Nil);
-Obj _3512972_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3512971_37);
-coraReturn(co, _3512972_37);
+Obj _3513041_37 = makeCons(co->gc, imp, Nil);
+Obj _3513042_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513041_37);
+coraReturn(co, _3513042_37);
 return;
 }
 }
@@ -1714,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512420_37 = R[1];
-Obj _3512421_37 = R[2];
-Obj _3512422_37 = R[3];
-Obj _3512423_37 = R[4];
-Obj _3512424_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512422_37, _3512420_37, _3512421_37, _3512423_37);
-Obj _3512947_37 = PRIM_ISCONS(_3512420_37);
-if (True == _3512947_37) {
-Obj _3512948_37 = PRIM_CAR(_3512420_37);
-Obj _3512949_37 = PRIM_ISCONS(_3512948_37);
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(_3512420_37);
-Obj _3512951_37 = PRIM_CAR(_3512950_37);
-Obj _3512952_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3512951_37);
-if (True == _3512952_37) {
-Obj _3512953_37 = PRIM_CAR(_3512420_37);
-Obj _3512954_37 = PRIM_CDR(_3512953_37);
-Obj _3512955_37 = PRIM_ISCONS(_3512954_37);
-if (True == _3512955_37) {
-Obj _3512956_37 = PRIM_CAR(_3512420_37);
-Obj _3512957_37 = PRIM_CDR(_3512956_37);
-Obj _3512958_37 = PRIM_CAR(_3512957_37);
-Obj lib = _3512958_37;
-Obj _3512959_37 = PRIM_CAR(_3512420_37);
-Obj _3512960_37 = PRIM_CDR(_3512959_37);
-Obj _3512961_37 = PRIM_CDR(_3512960_37);
-Obj _3512962_37 = PRIM_EQ(Nil, _3512961_37);
-if (True == _3512962_37) {
-Obj _3512963_37 = PRIM_CDR(_3512420_37);
-Obj rest = _3512963_37;
-Obj _3512964_37 = makeCons(co->gc, lib, _3512421_37);
+Obj _3512490_37 = R[1];
+Obj _3512491_37 = R[2];
+Obj _3512492_37 = R[3];
+Obj _3512493_37 = R[4];
+Obj _3512494_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512492_37, _3512490_37, _3512491_37, _3512493_37);
+Obj _3513017_37 = PRIM_ISCONS(_3512490_37);
+if (True == _3513017_37) {
+Obj _3513018_37 = PRIM_CAR(_3512490_37);
+Obj _3513019_37 = PRIM_ISCONS(_3513018_37);
+if (True == _3513019_37) {
+Obj _3513020_37 = PRIM_CAR(_3512490_37);
+Obj _3513021_37 = PRIM_CAR(_3513020_37);
+Obj _3513022_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513021_37);
+if (True == _3513022_37) {
+Obj _3513023_37 = PRIM_CAR(_3512490_37);
+Obj _3513024_37 = PRIM_CDR(_3513023_37);
+Obj _3513025_37 = PRIM_ISCONS(_3513024_37);
+if (True == _3513025_37) {
+Obj _3513026_37 = PRIM_CAR(_3512490_37);
+Obj _3513027_37 = PRIM_CDR(_3513026_37);
+Obj _3513028_37 = PRIM_CAR(_3513027_37);
+Obj lib = _3513028_37;
+Obj _3513029_37 = PRIM_CAR(_3512490_37);
+Obj _3513030_37 = PRIM_CDR(_3513029_37);
+Obj _3513031_37 = PRIM_CDR(_3513030_37);
+Obj _3513032_37 = PRIM_EQ(Nil, _3513031_37);
+if (True == _3513032_37) {
+Obj _3513033_37 = PRIM_CDR(_3512490_37);
+Obj rest = _3513033_37;
+Obj _3513034_37 = makeCons(co->gc, lib, _3512491_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3512964_37, _3512422_37, _3512423_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3513034_37, _3512492_37, _3512493_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512494_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512424_37);
+coraCall0(co, _3512494_37);
 return;
 }
 }
@@ -1780,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512425_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3512938_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512938_37) {
-Obj _3512939_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512940_37 = PRIM_ISCONS(_3512939_37);
-if (True == _3512940_37) {
-Obj _3512941_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512942_37 = PRIM_CAR(_3512941_37);
-Obj _3512943_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3512942_37);
-if (True == _3512943_37) {
-Obj _3512944_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512945_37 = PRIM_CDR(_3512944_37);
-Obj more = _3512945_37;
-Obj _3512946_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3512946_37;
+Obj _3512495_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513008_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513008_37) {
+Obj _3513009_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513010_37 = PRIM_ISCONS(_3513009_37);
+if (True == _3513010_37) {
+Obj _3513011_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513012_37 = PRIM_CAR(_3513011_37);
+Obj _3513013_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513012_37);
+if (True == _3513013_37) {
+Obj _3513014_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513015_37 = PRIM_CDR(_3513014_37);
+Obj more = _3513015_37;
+Obj _3513016_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj rest = _3513016_37;
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512495_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512495_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512425_37);
+coraCall0(co, _3512495_37);
 return;
 }
 }
@@ -1827,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj _3512937_37= co->res;
+Obj _3513007_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3512937_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3513007_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj _3512935_37= co->res;
-Obj _3512934_37 = R[1];
+Obj _3513005_37= co->res;
+Obj _3513004_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3512934_37, _3512935_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513004_37, _3513005_37);
 return;
 }
 case 2:
 {
-Obj _3512934_37= co->res;
+Obj _3513004_37= co->res;
 Obj exp = R[1];
-R[1] = _3512934_37;
+R[1] = _3513004_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -1879,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj _3512923_37= co->res;
-Obj _3512922_37 = R[1];
+Obj _3512993_37= co->res;
+Obj _3512992_37 = R[1];
 Obj fn = R[2];
-Obj _3512924_37 = makeCons(co->gc, _3512923_37, Nil);
-Obj _3512925_37 = makeCons(co->gc, _3512922_37, _3512924_37);
-Obj _3512926_37 = makeCons(co->gc, fn, _3512925_37);
-coraReturn(co, _3512926_37);
+Obj _3512994_37 = makeCons(co->gc, _3512993_37, Nil);
+Obj _3512995_37 = makeCons(co->gc, _3512992_37, _3512994_37);
+Obj _3512996_37 = makeCons(co->gc, fn, _3512995_37);
+coraReturn(co, _3512996_37);
 return;
 }
 case 2:
 {
-Obj _3512929_37= co->res;
-Obj _3512927_37 = R[1];
+Obj _3512999_37= co->res;
+Obj _3512997_37 = R[1];
 Obj fn = R[2];
-Obj _3512930_37 = makeCons(co->gc, _3512929_37, Nil);
-Obj _3512931_37 = makeCons(co->gc, _3512927_37, _3512930_37);
-Obj _3512932_37 = makeCons(co->gc, fn, _3512931_37);
-coraReturn(co, _3512932_37);
+Obj _3513000_37 = makeCons(co->gc, _3512999_37, Nil);
+Obj _3513001_37 = makeCons(co->gc, _3512997_37, _3513000_37);
+Obj _3513002_37 = makeCons(co->gc, fn, _3513001_37);
+coraReturn(co, _3513002_37);
 return;
 }
 case 3:
 {
-Obj _3512921_37= co->res;
+Obj _3512991_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512921_37) {
-Obj _3512922_37 = PRIM_CAR(arglist);
-R[1] = _3512922_37;
+if (True == _3512991_37) {
+Obj _3512992_37 = PRIM_CAR(arglist);
+R[1] = _3512992_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
 return;
 } else {
-Obj _3512927_37 = PRIM_CAR(arglist);
-Obj _3512928_37 = PRIM_CDR(arglist);
-R[1] = _3512927_37;
+Obj _3512997_37 = PRIM_CAR(arglist);
+Obj _3512998_37 = PRIM_CDR(arglist);
+R[1] = _3512997_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512928_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512998_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512920_37= co->res;
+Obj _3512990_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512990_37);
 return;
 }
 }
@@ -1946,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj _3512918_37= co->res;
+Obj _3512988_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512988_37);
 return;
 }
 }
@@ -1958,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512415_37 = R[1];
-Obj _3512898_37 = primIsSymbol(_3512415_37);
-if (True == _3512898_37) {
-Obj _3512899_37 = makeCons(co->gc, _3512415_37, Nil);
-Obj _3512900_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512899_37);
-coraReturn(co, _3512900_37);
-return;
-} else {
-Obj _3512417_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512415_37);
-Obj _3512907_37 = PRIM_ISCONS(_3512415_37);
-if (True == _3512907_37) {
-Obj _3512908_37 = PRIM_CAR(_3512415_37);
-Obj _3512909_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512908_37);
-if (True == _3512909_37) {
-Obj _3512910_37 = PRIM_CDR(_3512415_37);
-Obj _3512911_37 = PRIM_ISCONS(_3512910_37);
-if (True == _3512911_37) {
-Obj _3512912_37 = PRIM_CDR(_3512415_37);
-Obj _3512913_37 = PRIM_CAR(_3512912_37);
-Obj x = _3512913_37;
-Obj _3512914_37 = PRIM_CDR(_3512415_37);
-Obj _3512915_37 = PRIM_CDR(_3512914_37);
-Obj _3512916_37 = PRIM_EQ(Nil, _3512915_37);
-if (True == _3512916_37) {
+Obj _3512485_37 = R[1];
+Obj _3512968_37 = primIsSymbol(_3512485_37);
+if (True == _3512968_37) {
+Obj _3512969_37 = makeCons(co->gc, _3512485_37, Nil);
+Obj _3512970_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512969_37);
+coraReturn(co, _3512970_37);
+return;
+} else {
+Obj _3512487_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512485_37);
+Obj _3512977_37 = PRIM_ISCONS(_3512485_37);
+if (True == _3512977_37) {
+Obj _3512978_37 = PRIM_CAR(_3512485_37);
+Obj _3512979_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512978_37);
+if (True == _3512979_37) {
+Obj _3512980_37 = PRIM_CDR(_3512485_37);
+Obj _3512981_37 = PRIM_ISCONS(_3512980_37);
+if (True == _3512981_37) {
+Obj _3512982_37 = PRIM_CDR(_3512485_37);
+Obj _3512983_37 = PRIM_CAR(_3512982_37);
+Obj x = _3512983_37;
+Obj _3512984_37 = PRIM_CDR(_3512485_37);
+Obj _3512985_37 = PRIM_CDR(_3512984_37);
+Obj _3512986_37 = PRIM_EQ(Nil, _3512985_37);
+if (True == _3512986_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512487_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512417_37);
+coraCall0(co, _3512487_37);
 return;
 }
 }
@@ -2013,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512901_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512901_37) {
-Obj _3512902_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512902_37;
-Obj _3512903_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512903_37;
-Obj _3512904_37 = makeCons(co->gc, x, more);
+Obj _3512971_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512971_37) {
+Obj _3512972_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512972_37;
+Obj _3512973_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3512973_37;
+Obj _3512974_37 = makeCons(co->gc, x, more);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512904_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512974_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2030,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj _3512905_37= co->res;
-Obj _3512906_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512905_37);
-coraReturn(co, _3512906_37);
+Obj _3512975_37= co->res;
+Obj _3512976_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512975_37);
+coraReturn(co, _3512976_37);
 return;
 }
 }
@@ -2043,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512896_37 = PRIM_CDR(exp);
+Obj _3512966_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512896_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512966_37);
 return;
 }
 }
@@ -2055,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512411_37 = R[1];
-Obj _3512412_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512411_37);
-Obj _3512891_37 = PRIM_ISCONS(_3512411_37);
-if (True == _3512891_37) {
-Obj _3512892_37 = PRIM_CAR(_3512411_37);
-Obj x = _3512892_37;
-Obj _3512893_37 = PRIM_CDR(_3512411_37);
-Obj _3512894_37 = PRIM_EQ(Nil, _3512893_37);
-if (True == _3512894_37) {
+Obj _3512481_37 = R[1];
+Obj _3512482_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512481_37);
+Obj _3512961_37 = PRIM_ISCONS(_3512481_37);
+if (True == _3512961_37) {
+Obj _3512962_37 = PRIM_CAR(_3512481_37);
+Obj x = _3512962_37;
+Obj _3512963_37 = PRIM_CDR(_3512481_37);
+Obj _3512964_37 = PRIM_EQ(Nil, _3512963_37);
+if (True == _3512964_37) {
 coraReturn(co, x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, _3512482_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512412_37);
+coraCall0(co, _3512482_37);
 return;
 }
 }
@@ -2084,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512413_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512879_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512879_37) {
-Obj _3512880_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512880_37;
-Obj _3512881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512882_37 = PRIM_ISCONS(_3512881_37);
-if (True == _3512882_37) {
-Obj _3512883_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512884_37 = PRIM_CAR(_3512883_37);
-Obj y = _3512884_37;
-Obj _3512885_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512886_37 = PRIM_CDR(_3512885_37);
-Obj _3512887_37 = PRIM_EQ(Nil, _3512886_37);
-if (True == _3512887_37) {
-Obj _3512888_37 = makeCons(co->gc, y, Nil);
-Obj _3512889_37 = makeCons(co->gc, x, _3512888_37);
-Obj _3512890_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512889_37);
-coraReturn(co, _3512890_37);
+Obj _3512483_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3512949_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512949_37) {
+Obj _3512950_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512950_37;
+Obj _3512951_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512952_37 = PRIM_ISCONS(_3512951_37);
+if (True == _3512952_37) {
+Obj _3512953_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512954_37 = PRIM_CAR(_3512953_37);
+Obj y = _3512954_37;
+Obj _3512955_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512956_37 = PRIM_CDR(_3512955_37);
+Obj _3512957_37 = PRIM_EQ(Nil, _3512956_37);
+if (True == _3512957_37) {
+Obj _3512958_37 = makeCons(co->gc, y, Nil);
+Obj _3512959_37 = makeCons(co->gc, x, _3512958_37);
+Obj _3512960_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512959_37);
+coraReturn(co, _3512960_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512483_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512413_37);
+coraCall0(co, _3512483_37);
 return;
 }
 }
@@ -2127,12 +2128,12 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512872_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512872_37) {
-Obj _3512873_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512873_37;
-Obj _3512874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512874_37;
+Obj _3512942_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512942_37) {
+Obj _3512943_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512943_37;
+Obj _3512944_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512944_37;
 R[1] = x;
 saveCont(co, clofun64, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
@@ -2145,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj _3512875_37= co->res;
+Obj _3512945_37= co->res;
 Obj x = R[1];
-Obj _3512876_37 = makeCons(co->gc, _3512875_37, Nil);
-Obj _3512877_37 = makeCons(co->gc, x, _3512876_37);
-Obj _3512878_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512877_37);
-coraReturn(co, _3512878_37);
+Obj _3512946_37 = makeCons(co->gc, _3512945_37, Nil);
+Obj _3512947_37 = makeCons(co->gc, x, _3512946_37);
+Obj _3512948_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512947_37);
+coraReturn(co, _3512948_37);
 return;
 }
 }
@@ -2167,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj _3512870_37= co->res;
+Obj _3512940_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512870_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512940_37);
 return;
 }
 case 2:
 {
-Obj _3512869_37= co->res;
+Obj _3512939_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512939_37);
 return;
 }
 }
@@ -2217,25 +2218,25 @@ return;
 }
 case 1:
 {
-Obj _3512858_37= co->res;
+Obj _3512928_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3512859_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512860_37 = makeCons(co->gc, _3512859_37, body);
-Obj _3512861_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512860_37);
-Obj _3512862_37 = makeCons(co->gc, _3512861_37, Nil);
-Obj _3512863_37 = makeCons(co->gc, args, _3512862_37);
-Obj _3512864_37 = makeCons(co->gc, _3512858_37, _3512863_37);
-Obj _3512865_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512864_37);
-coraReturn(co, _3512865_37);
+Obj _3512929_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
+Obj _3512930_37 = makeCons(co->gc, _3512929_37, body);
+Obj _3512931_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512930_37);
+Obj _3512932_37 = makeCons(co->gc, _3512931_37, Nil);
+Obj _3512933_37 = makeCons(co->gc, args, _3512932_37);
+Obj _3512934_37 = makeCons(co->gc, _3512928_37, _3512933_37);
+Obj _3512935_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512934_37);
+coraReturn(co, _3512935_37);
 return;
 }
 case 2:
 {
-Obj _3512857_37= co->res;
+Obj _3512927_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj args = _3512857_37;
+Obj args = _3512927_37;
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun60, 1, R);
@@ -2244,10 +2245,10 @@ return;
 }
 case 3:
 {
-Obj _3512856_37= co->res;
+Obj _3512926_37= co->res;
 Obj exp = R[1];
 Obj body = R[2];
-Obj nargs = _3512856_37;
+Obj nargs = _3512926_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 2, R);
@@ -2256,9 +2257,9 @@ return;
 }
 case 4:
 {
-Obj _3512855_37= co->res;
+Obj _3512925_37= co->res;
 Obj exp = R[1];
-Obj body = _3512855_37;
+Obj body = _3512925_37;
 R[1] = exp;
 R[2] = body;
 saveCont(co, clofun60, 3, R);
@@ -2267,11 +2268,11 @@ return;
 }
 case 5:
 {
-Obj _3512854_37= co->res;
+Obj _3512924_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512854_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512924_37);
 return;
 }
 }
@@ -2282,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512848_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512848_37) {
+Obj _3512918_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3512918_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512849_37 = primGenSym(co);
-Obj _3512850_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512849_37;
+Obj _3512919_37 = primGenSym(co);
+Obj _3512920_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3512919_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512850_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512920_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512851_37= co->res;
-Obj _3512849_37 = R[1];
-Obj _3512852_37 = makeCons(co->gc, _3512849_37, _3512851_37);
-coraReturn(co, _3512852_37);
+Obj _3512921_37= co->res;
+Obj _3512919_37 = R[1];
+Obj _3512922_37 = makeCons(co->gc, _3512919_37, _3512921_37);
+coraReturn(co, _3512922_37);
 return;
 }
 }
@@ -2317,10 +2318,10 @@ return;
 }
 case 1:
 {
-Obj _3512845_37= co->res;
+Obj _3512915_37= co->res;
 Obj n = R[1];
-Obj _3512846_37 = primNot(_3512845_37);
-if (True == _3512846_37) {
+Obj _3512916_37 = primNot(_3512915_37);
+if (True == _3512916_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
@@ -2331,29 +2332,29 @@ return;
 }
 case 2:
 {
-Obj _3512844_37= co->res;
+Obj _3512914_37= co->res;
 Obj n = R[1];
 R[1] = n;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512844_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512914_37);
 return;
 }
 case 3:
 {
-Obj _3512839_37= co->res;
-Obj counts = _3512839_37;
-Obj _3512840_37 = PRIM_CAR(counts);
-Obj n = _3512840_37;
-Obj _3512843_37 = PRIM_CDR(counts);
+Obj _3512909_37= co->res;
+Obj counts = _3512909_37;
+Obj _3512910_37 = PRIM_CAR(counts);
+Obj n = _3512910_37;
+Obj _3512913_37 = PRIM_CDR(counts);
 R[1] = n;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512843_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512913_37);
 return;
 }
 case 4:
 {
-Obj _3512837_37= co->res;
-Obj pats = _3512837_37;
+Obj _3512907_37= co->res;
+Obj pats = _3512907_37;
 saveCont(co, clofun58, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
 return;
@@ -2366,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512841_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512842_37 = primNot(_3512841_37);
-coraReturn(co, _3512842_37);
+Obj _3512911_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3512912_37 = primNot(_3512911_37);
+coraReturn(co, _3512912_37);
 return;
 }
 }
@@ -2379,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512838_37 = PRIM_CDR(x);
+Obj _3512908_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512908_37);
 return;
 }
 }
@@ -2393,25 +2394,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512831_37 = PRIM_EQ(l1, Nil);
-if (True == _3512831_37) {
+Obj _3512901_37 = PRIM_EQ(l1, Nil);
+if (True == _3512901_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512832_37 = PRIM_CAR(l1);
-Obj _3512833_37 = PRIM_CDR(l1);
-R[1] = _3512832_37;
+Obj _3512902_37 = PRIM_CAR(l1);
+Obj _3512903_37 = PRIM_CDR(l1);
+R[1] = _3512902_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512833_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512903_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512834_37= co->res;
-Obj _3512832_37 = R[1];
-Obj _3512835_37 = makeCons(co->gc, _3512832_37, _3512834_37);
-coraReturn(co, _3512835_37);
+Obj _3512904_37= co->res;
+Obj _3512902_37 = R[1];
+Obj _3512905_37 = makeCons(co->gc, _3512902_37, _3512904_37);
+coraReturn(co, _3512905_37);
 return;
 }
 }
@@ -2437,14 +2438,14 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512822_37 = PRIM_ISCONS(l);
-if (True == _3512822_37) {
-Obj _3512823_37 = PRIM_CAR(l);
+Obj _3512892_37 = PRIM_ISCONS(l);
+if (True == _3512892_37) {
+Obj _3512893_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512823_37);
+coraCall1(co, fn, _3512893_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2454,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj _3512824_37= co->res;
+Obj _3512894_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512824_37) {
-Obj _3512825_37 = PRIM_CAR(l);
-Obj _3512826_37 = makeCons(co->gc, _3512825_37, res);
-Obj _3512827_37 = PRIM_CDR(l);
+if (True == _3512894_37) {
+Obj _3512895_37 = PRIM_CAR(l);
+Obj _3512896_37 = makeCons(co->gc, _3512895_37, res);
+Obj _3512897_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512826_37, fn, _3512827_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512896_37, fn, _3512897_37);
 return;
 } else {
-Obj _3512828_37 = PRIM_CDR(l);
+Obj _3512898_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512828_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512898_37);
 return;
 }
 }
@@ -2493,15 +2494,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512817_37 = PRIM_EQ(l, Nil);
-if (True == _3512817_37) {
+Obj _3512887_37 = PRIM_EQ(l, Nil);
+if (True == _3512887_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512818_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512819_37 = PRIM_CDR(l);
+Obj _3512888_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3512889_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512818_37, _3512819_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512888_37, _3512889_37);
 return;
 }
 }
@@ -2522,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj _3512815_37= co->res;
-Obj _3512814_37 = R[1];
+Obj _3512885_37= co->res;
+Obj _3512884_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512814_37, _3512815_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512884_37, _3512885_37);
 return;
 }
 case 2:
 {
-Obj _3512812_37= co->res;
+Obj _3512882_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512812_37) {
+if (True == _3512882_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
 return;
 } else {
-Obj _3512813_37 = PRIM_CAR(rules);
-Obj _3512814_37 = makeCons(co->gc, _3512813_37, res);
-R[1] = _3512814_37;
+Obj _3512883_37 = PRIM_CAR(rules);
+Obj _3512884_37 = makeCons(co->gc, _3512883_37, res);
+R[1] = _3512884_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
 return;
@@ -2568,48 +2569,48 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512759_37 = PRIM_EQ(Nil, input);
-if (True == _3512759_37) {
+Obj _3512829_37 = PRIM_EQ(Nil, input);
+if (True == _3512829_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
 return;
 } else {
-Obj _3512408_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512777_37 = PRIM_ISCONS(input);
-if (True == _3512777_37) {
-Obj _3512778_37 = PRIM_CAR(input);
-Obj _3512779_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512778_37);
-if (True == _3512779_37) {
-Obj _3512780_37 = PRIM_CDR(input);
-Obj _3512781_37 = PRIM_ISCONS(_3512780_37);
-if (True == _3512781_37) {
-Obj _3512782_37 = PRIM_CDR(input);
-Obj _3512783_37 = PRIM_CAR(_3512782_37);
-Obj act = _3512783_37;
-Obj _3512784_37 = PRIM_CDR(input);
-Obj _3512785_37 = PRIM_CDR(_3512784_37);
-Obj _3512786_37 = PRIM_ISCONS(_3512785_37);
-if (True == _3512786_37) {
-Obj _3512787_37 = PRIM_CDR(input);
-Obj _3512788_37 = PRIM_CDR(_3512787_37);
-Obj _3512789_37 = PRIM_CAR(_3512788_37);
-Obj _3512790_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512789_37);
-if (True == _3512790_37) {
-Obj _3512791_37 = PRIM_CDR(input);
-Obj _3512792_37 = PRIM_CDR(_3512791_37);
-Obj _3512793_37 = PRIM_CDR(_3512792_37);
-Obj _3512794_37 = PRIM_ISCONS(_3512793_37);
-if (True == _3512794_37) {
-Obj _3512795_37 = PRIM_CDR(input);
-Obj _3512796_37 = PRIM_CDR(_3512795_37);
-Obj _3512797_37 = PRIM_CDR(_3512796_37);
-Obj _3512798_37 = PRIM_CAR(_3512797_37);
-Obj pred = _3512798_37;
-Obj _3512799_37 = PRIM_CDR(input);
-Obj _3512800_37 = PRIM_CDR(_3512799_37);
-Obj _3512801_37 = PRIM_CDR(_3512800_37);
-Obj _3512802_37 = PRIM_CDR(_3512801_37);
-Obj remain = _3512802_37;
+Obj _3512478_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3512847_37 = PRIM_ISCONS(input);
+if (True == _3512847_37) {
+Obj _3512848_37 = PRIM_CAR(input);
+Obj _3512849_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512848_37);
+if (True == _3512849_37) {
+Obj _3512850_37 = PRIM_CDR(input);
+Obj _3512851_37 = PRIM_ISCONS(_3512850_37);
+if (True == _3512851_37) {
+Obj _3512852_37 = PRIM_CDR(input);
+Obj _3512853_37 = PRIM_CAR(_3512852_37);
+Obj act = _3512853_37;
+Obj _3512854_37 = PRIM_CDR(input);
+Obj _3512855_37 = PRIM_CDR(_3512854_37);
+Obj _3512856_37 = PRIM_ISCONS(_3512855_37);
+if (True == _3512856_37) {
+Obj _3512857_37 = PRIM_CDR(input);
+Obj _3512858_37 = PRIM_CDR(_3512857_37);
+Obj _3512859_37 = PRIM_CAR(_3512858_37);
+Obj _3512860_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512859_37);
+if (True == _3512860_37) {
+Obj _3512861_37 = PRIM_CDR(input);
+Obj _3512862_37 = PRIM_CDR(_3512861_37);
+Obj _3512863_37 = PRIM_CDR(_3512862_37);
+Obj _3512864_37 = PRIM_ISCONS(_3512863_37);
+if (True == _3512864_37) {
+Obj _3512865_37 = PRIM_CDR(input);
+Obj _3512866_37 = PRIM_CDR(_3512865_37);
+Obj _3512867_37 = PRIM_CDR(_3512866_37);
+Obj _3512868_37 = PRIM_CAR(_3512867_37);
+Obj pred = _3512868_37;
+Obj _3512869_37 = PRIM_CDR(input);
+Obj _3512870_37 = PRIM_CDR(_3512869_37);
+Obj _3512871_37 = PRIM_CDR(_3512870_37);
+Obj _3512872_37 = PRIM_CDR(_3512871_37);
+Obj remain = _3512872_37;
 R[1] = act;
 R[2] = pred;
 R[3] = result;
@@ -2619,52 +2620,52 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512478_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512478_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512478_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512478_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512478_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512408_37);
+coraCall0(co, _3512478_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512803_37= co->res;
+Obj _3512873_37= co->res;
 Obj act = R[1];
 Obj pred = R[2];
 Obj result = R[3];
 Obj remain = R[4];
-Obj _3512804_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512803_37);
-Obj pat = _3512804_37;
-Obj _3512805_37 = makeCons(co->gc, act, Nil);
-Obj _3512806_37 = makeCons(co->gc, pred, _3512805_37);
-Obj _3512807_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512806_37);
-Obj _3512808_37 = makeCons(co->gc, pat, result);
-Obj _3512809_37 = makeCons(co->gc, _3512807_37, _3512808_37);
+Obj _3512874_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512873_37);
+Obj pat = _3512874_37;
+Obj _3512875_37 = makeCons(co->gc, act, Nil);
+Obj _3512876_37 = makeCons(co->gc, pred, _3512875_37);
+Obj _3512877_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512876_37);
+Obj _3512878_37 = makeCons(co->gc, pat, result);
+Obj _3512879_37 = makeCons(co->gc, _3512877_37, _3512878_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512809_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512879_37);
 return;
 }
 }
@@ -2674,21 +2675,21 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512409_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512764_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512764_37) {
-Obj _3512765_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512766_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512765_37);
-if (True == _3512766_37) {
-Obj _3512767_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512768_37 = PRIM_ISCONS(_3512767_37);
-if (True == _3512768_37) {
-Obj _3512769_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512770_37 = PRIM_CAR(_3512769_37);
-Obj act = _3512770_37;
-Obj _3512771_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512772_37 = PRIM_CDR(_3512771_37);
-Obj remain = _3512772_37;
+Obj _3512479_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3512834_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512834_37) {
+Obj _3512835_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3512836_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512835_37);
+if (True == _3512836_37) {
+Obj _3512837_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512838_37 = PRIM_ISCONS(_3512837_37);
+if (True == _3512838_37) {
+Obj _3512839_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512840_37 = PRIM_CAR(_3512839_37);
+Obj act = _3512840_37;
+Obj _3512841_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512842_37 = PRIM_CDR(_3512841_37);
+Obj remain = _3512842_37;
 R[1] = act;
 R[2] = remain;
 saveCont(co, clofun47, 1, R);
@@ -2696,31 +2697,31 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1)
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512479_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512479_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512409_37);
+coraCall0(co, _3512479_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512773_37= co->res;
+Obj _3512843_37= co->res;
 Obj act = R[1];
 Obj remain = R[2];
-Obj _3512774_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512773_37);
-Obj pat = _3512774_37;
-Obj _3512775_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512776_37 = makeCons(co->gc, act, _3512775_37);
+Obj _3512844_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512843_37);
+Obj pat = _3512844_37;
+Obj _3512845_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
+Obj _3512846_37 = makeCons(co->gc, act, _3512845_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512776_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512846_37);
 return;
 }
 }
@@ -2730,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512760_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512760_37) {
-Obj _3512761_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512761_37;
-Obj _3512762_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512762_37;
-Obj _3512763_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3512830_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3512830_37) {
+Obj _3512831_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3512831_37;
+Obj _3512832_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3512832_37;
+Obj _3512833_37 = makeCons(co->gc, x, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512763_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512833_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2773,35 +2774,35 @@ return;
 }
 case 1:
 {
-Obj _3512746_37= co->res;
+Obj _3512816_37= co->res;
 Obj value = R[1];
-Obj rules = _3512746_37;
-Obj _3512459_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512753_37 = PRIM_ISCONS(value);
-if (True == _3512753_37) {
-Obj _3512754_37 = PRIM_CAR(value);
-Obj _3512755_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512754_37);
-Obj _3512756_37 = primNot(_3512755_37);
-if (True == _3512756_37) {
+Obj rules = _3512816_37;
+Obj _3512529_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
+Obj _3512823_37 = PRIM_ISCONS(value);
+if (True == _3512823_37) {
+Obj _3512824_37 = PRIM_CAR(value);
+Obj _3512825_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512824_37);
+Obj _3512826_37 = primNot(_3512825_37);
+if (True == _3512826_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, True);
+coraCall1(co, _3512529_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, _3512529_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512459_37, False);
+coraCall1(co, _3512529_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512745_37= co->res;
+Obj _3512815_37= co->res;
 Obj exp = R[1];
-Obj value = _3512745_37;
+Obj value = _3512815_37;
 R[1] = value;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
@@ -2809,11 +2810,11 @@ return;
 }
 case 3:
 {
-Obj _3512744_37= co->res;
+Obj _3512814_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512744_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512814_37);
 return;
 }
 }
@@ -2823,10 +2824,10 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512460_37 = R[1];
-if (True == _3512460_37) {
-Obj _3512747_37 = primGenSym(co);
-Obj val = _3512747_37;
+Obj _3512530_37 = R[1];
+if (True == _3512530_37) {
+Obj _3512817_37 = primGenSym(co);
+Obj val = _3512817_37;
 R[1] = val;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
@@ -2839,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj _3512748_37= co->res;
+Obj _3512818_37= co->res;
 Obj val = R[1];
-Obj _3512749_37 = makeCons(co->gc, _3512748_37, Nil);
-Obj _3512750_37 = makeCons(co->gc, closureRef(R[0], 0), _3512749_37);
-Obj _3512751_37 = makeCons(co->gc, val, _3512750_37);
-Obj _3512752_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512751_37);
-coraReturn(co, _3512752_37);
+Obj _3512819_37 = makeCons(co->gc, _3512818_37, Nil);
+Obj _3512820_37 = makeCons(co->gc, closureRef(R[0], 0), _3512819_37);
+Obj _3512821_37 = makeCons(co->gc, val, _3512820_37);
+Obj _3512822_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512821_37);
+coraReturn(co, _3512822_37);
 return;
 }
 }
@@ -2865,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj _3512742_37= co->res;
-Obj _3512457_37 = R[1];
-if (True == _3512742_37) {
+Obj _3512812_37= co->res;
+Obj _3512527_37 = R[1];
+if (True == _3512812_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, True);
+coraCall1(co, _3512527_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, _3512527_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512740_37= co->res;
+Obj _3512810_37= co->res;
 Obj rules = R[1];
-Obj _3512457_37 = R[2];
-if (True == _3512740_37) {
-Obj _3512741_37 = PRIM_CDR(rules);
-R[1] = _3512457_37;
+Obj _3512527_37 = R[2];
+if (True == _3512810_37) {
+Obj _3512811_37 = PRIM_CDR(rules);
+R[1] = _3512527_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512741_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512811_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512457_37, False);
+coraCall1(co, _3512527_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512722_37= co->res;
+Obj _3512792_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512722_37) {
-Obj _3512723_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512724_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512723_37);
-coraReturn(co, _3512724_37);
+if (True == _3512792_37) {
+Obj _3512793_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3512794_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512793_37);
+coraReturn(co, _3512794_37);
 return;
 } else {
-Obj _3512457_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3512527_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512457_37;
+R[2] = _3512527_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
 return;
@@ -2920,12 +2921,12 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512458_37 = R[1];
-if (True == _3512458_37) {
-Obj _3512725_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512725_37;
-Obj _3512726_37 = primGenSym(co);
-Obj cc = _3512726_37;
+Obj _3512528_37 = R[1];
+if (True == _3512528_37) {
+Obj _3512795_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj pat = _3512795_37;
+Obj _3512796_37 = primGenSym(co);
+Obj cc = _3512796_37;
 R[1] = pat;
 R[2] = cc;
 saveCont(co, clofun41, 4, R);
@@ -2939,49 +2940,49 @@ return;
 }
 case 1:
 {
-Obj _3512732_37= co->res;
+Obj _3512802_37= co->res;
 Obj curr = R[1];
 Obj cc = R[2];
-Obj rest = _3512732_37;
-Obj _3512733_37 = makeCons(co->gc, rest, Nil);
-Obj _3512734_37 = makeCons(co->gc, Nil, _3512733_37);
-Obj _3512735_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512734_37);
-Obj _3512736_37 = makeCons(co->gc, curr, Nil);
-Obj _3512737_37 = makeCons(co->gc, _3512735_37, _3512736_37);
-Obj _3512738_37 = makeCons(co->gc, cc, _3512737_37);
-Obj _3512739_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512738_37);
-coraReturn(co, _3512739_37);
+Obj rest = _3512802_37;
+Obj _3512803_37 = makeCons(co->gc, rest, Nil);
+Obj _3512804_37 = makeCons(co->gc, Nil, _3512803_37);
+Obj _3512805_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512804_37);
+Obj _3512806_37 = makeCons(co->gc, curr, Nil);
+Obj _3512807_37 = makeCons(co->gc, _3512805_37, _3512806_37);
+Obj _3512808_37 = makeCons(co->gc, cc, _3512807_37);
+Obj _3512809_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512808_37);
+coraReturn(co, _3512809_37);
 return;
 }
 case 2:
 {
-Obj _3512729_37= co->res;
+Obj _3512799_37= co->res;
 Obj cc = R[1];
-Obj curr = _3512729_37;
-Obj _3512730_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512731_37 = PRIM_CDR(_3512730_37);
+Obj curr = _3512799_37;
+Obj _3512800_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3512801_37 = PRIM_CDR(_3512800_37);
 R[1] = curr;
 R[2] = cc;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512801_37);
 return;
 }
 case 3:
 {
-Obj _3512728_37= co->res;
+Obj _3512798_37= co->res;
 Obj action = R[1];
 Obj cc = R[2];
 R[1] = cc;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512728_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512798_37, closureRef(R[0], 0), action, cc);
 return;
 }
 case 4:
 {
-Obj _3512727_37= co->res;
+Obj _3512797_37= co->res;
 Obj pat = R[1];
 Obj cc = R[2];
-Obj action = _3512727_37;
+Obj action = _3512797_37;
 R[1] = action;
 R[2] = cc;
 saveCont(co, clofun41, 3, R);
@@ -2997,36 +2998,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512709_37 = PRIM_CDR(rules);
-Obj _3512710_37 = PRIM_CAR(_3512709_37);
-Obj action = _3512710_37;
-Obj _3512455_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
+Obj _3512779_37 = PRIM_CDR(rules);
+Obj _3512780_37 = PRIM_CAR(_3512779_37);
+Obj action = _3512780_37;
+Obj _3512525_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
 R[1] = action;
-R[2] = _3512455_37;
+R[2] = _3512525_37;
 saveCont(co, clofun40, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
 return;
 }
 case 1:
 {
-Obj _3512718_37= co->res;
+Obj _3512788_37= co->res;
 Obj action = R[1];
-Obj _3512455_37 = R[2];
-if (True == _3512718_37) {
-Obj _3512719_37 = PRIM_CAR(action);
-Obj _3512720_37 = PRIM_EQ(_3512719_37, getBinding(co, packageID, 110).name);
-if (True == _3512720_37) {
+Obj _3512525_37 = R[2];
+if (True == _3512788_37) {
+Obj _3512789_37 = PRIM_CAR(action);
+Obj _3512790_37 = PRIM_EQ(_3512789_37, getBinding(co, packageID, 110).name);
+if (True == _3512790_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, True);
+coraCall1(co, _3512525_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, _3512525_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512455_37, False);
+coraCall1(co, _3512525_37, False);
 return;
 }
 }
@@ -3037,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512456_37 = R[1];
-if (True == _3512456_37) {
+Obj _3512526_37 = R[1];
+if (True == _3512526_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3049,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj _3512712_37= co->res;
-Obj _3512711_37 = R[1];
-Obj _3512713_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512714_37 = makeCons(co->gc, _3512713_37, Nil);
-Obj _3512715_37 = makeCons(co->gc, _3512712_37, _3512714_37);
-Obj _3512716_37 = makeCons(co->gc, _3512711_37, _3512715_37);
-Obj _3512717_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512716_37);
-coraReturn(co, _3512717_37);
+Obj _3512782_37= co->res;
+Obj _3512781_37 = R[1];
+Obj _3512783_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3512784_37 = makeCons(co->gc, _3512783_37, Nil);
+Obj _3512785_37 = makeCons(co->gc, _3512782_37, _3512784_37);
+Obj _3512786_37 = makeCons(co->gc, _3512781_37, _3512785_37);
+Obj _3512787_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512786_37);
+coraReturn(co, _3512787_37);
 return;
 }
 case 2:
 {
-Obj _3512711_37= co->res;
-R[1] = _3512711_37;
+Obj _3512781_37= co->res;
+R[1] = _3512781_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3088,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj _3512707_37= co->res;
+Obj _3512777_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512707_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512777_37);
 return;
 }
 case 2:
 {
-Obj _3512694_37= co->res;
+Obj _3512764_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512694_37) {
-Obj _3512695_37 = PRIM_CAR(pat);
-Obj _3512696_37 = PRIM_EQ(_3512695_37, getBinding(co, packageID, 139).name);
-if (True == _3512696_37) {
-Obj _3512697_37 = makeCons(co->gc, expr, Nil);
-Obj _3512698_37 = makeCons(co->gc, pat, _3512697_37);
-Obj _3512699_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512698_37);
-Obj _3512700_37 = makeCons(co->gc, cc, Nil);
-Obj _3512701_37 = makeCons(co->gc, _3512700_37, Nil);
-Obj _3512702_37 = makeCons(co->gc, body, _3512701_37);
-Obj _3512703_37 = makeCons(co->gc, _3512699_37, _3512702_37);
-Obj _3512704_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512703_37);
-coraReturn(co, _3512704_37);
-return;
-} else {
-Obj _3512705_37 = PRIM_CAR(pat);
-Obj _3512706_37 = PRIM_EQ(_3512705_37, getBinding(co, packageID, 152).name);
-if (True == _3512706_37) {
+if (True == _3512764_37) {
+Obj _3512765_37 = PRIM_CAR(pat);
+Obj _3512766_37 = PRIM_EQ(_3512765_37, getBinding(co, packageID, 139).name);
+if (True == _3512766_37) {
+Obj _3512767_37 = makeCons(co->gc, expr, Nil);
+Obj _3512768_37 = makeCons(co->gc, pat, _3512767_37);
+Obj _3512769_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512768_37);
+Obj _3512770_37 = makeCons(co->gc, cc, Nil);
+Obj _3512771_37 = makeCons(co->gc, _3512770_37, Nil);
+Obj _3512772_37 = makeCons(co->gc, body, _3512771_37);
+Obj _3512773_37 = makeCons(co->gc, _3512769_37, _3512772_37);
+Obj _3512774_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512773_37);
+coraReturn(co, _3512774_37);
+return;
+} else {
+Obj _3512775_37 = PRIM_CAR(pat);
+Obj _3512776_37 = PRIM_EQ(_3512775_37, getBinding(co, packageID, 152).name);
+if (True == _3512776_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
 return;
@@ -3135,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj _3512679_37= co->res;
+Obj _3512749_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512679_37) {
-Obj _3512680_37 = PRIM_EQ(pat, expr);
-if (True == _3512680_37) {
+if (True == _3512749_37) {
+Obj _3512750_37 = PRIM_EQ(pat, expr);
+if (True == _3512750_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512681_37 = makeCons(co->gc, expr, Nil);
-Obj _3512682_37 = makeCons(co->gc, pat, _3512681_37);
-Obj _3512683_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512682_37);
-Obj _3512684_37 = makeCons(co->gc, cc, Nil);
-Obj _3512685_37 = makeCons(co->gc, _3512684_37, Nil);
-Obj _3512686_37 = makeCons(co->gc, body, _3512685_37);
-Obj _3512687_37 = makeCons(co->gc, _3512683_37, _3512686_37);
-Obj _3512688_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512687_37);
-coraReturn(co, _3512688_37);
+Obj _3512751_37 = makeCons(co->gc, expr, Nil);
+Obj _3512752_37 = makeCons(co->gc, pat, _3512751_37);
+Obj _3512753_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512752_37);
+Obj _3512754_37 = makeCons(co->gc, cc, Nil);
+Obj _3512755_37 = makeCons(co->gc, _3512754_37, Nil);
+Obj _3512756_37 = makeCons(co->gc, body, _3512755_37);
+Obj _3512757_37 = makeCons(co->gc, _3512753_37, _3512756_37);
+Obj _3512758_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512757_37);
+coraReturn(co, _3512758_37);
 return;
 }
 } else {
-Obj _3512689_37 = primIsSymbol(pat);
-if (True == _3512689_37) {
-Obj _3512690_37 = makeCons(co->gc, body, Nil);
-Obj _3512691_37 = makeCons(co->gc, expr, _3512690_37);
-Obj _3512692_37 = makeCons(co->gc, pat, _3512691_37);
-Obj _3512693_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512692_37);
-coraReturn(co, _3512693_37);
+Obj _3512759_37 = primIsSymbol(pat);
+if (True == _3512759_37) {
+Obj _3512760_37 = makeCons(co->gc, body, Nil);
+Obj _3512761_37 = makeCons(co->gc, expr, _3512760_37);
+Obj _3512762_37 = makeCons(co->gc, pat, _3512761_37);
+Obj _3512763_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512762_37);
+coraReturn(co, _3512763_37);
 return;
 } else {
 R[1] = expr;
@@ -3192,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj _3512676_37= co->res;
+Obj _3512746_37= co->res;
 Obj x = R[1];
-if (True == _3512676_37) {
-Obj _3512677_37 = primIsSymbol(x);
-Obj _3512678_37 = primNot(_3512677_37);
-if (True == _3512678_37) {
+if (True == _3512746_37) {
+Obj _3512747_37 = primIsSymbol(x);
+Obj _3512748_37 = primNot(_3512747_37);
+if (True == _3512748_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3230,40 +3231,40 @@ return;
 }
 case 1:
 {
-Obj _3512655_37= co->res;
+Obj _3512725_37= co->res;
 Obj x = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512655_37;
-Obj _3512453_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512672_37 = PRIM_ISCONS(expr);
-if (True == _3512672_37) {
-Obj _3512673_37 = PRIM_CAR(expr);
-Obj _3512674_37 = PRIM_EQ(_3512673_37, getBinding(co, packageID, 152).name);
-if (True == _3512674_37) {
+Obj y = _3512725_37;
+Obj _3512523_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
+Obj _3512742_37 = PRIM_ISCONS(expr);
+if (True == _3512742_37) {
+Obj _3512743_37 = PRIM_CAR(expr);
+Obj _3512744_37 = PRIM_EQ(_3512743_37, getBinding(co, packageID, 152).name);
+if (True == _3512744_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, True);
+coraCall1(co, _3512523_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, _3512523_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512453_37, False);
+coraCall1(co, _3512523_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512654_37= co->res;
+Obj _3512724_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512654_37;
+Obj x = _3512724_37;
 R[1] = x;
 R[2] = body;
 R[3] = cc;
@@ -3279,38 +3280,38 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512454_37 = R[1];
-if (True == _3512454_37) {
+Obj _3512524_37 = R[1];
+if (True == _3512524_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512659_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512660_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512659_37);
-Obj _3512661_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512662_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512661_37);
-Obj _3512663_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512664_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512663_37);
-R[1] = _3512662_37;
-R[2] = _3512660_37;
+Obj _3512729_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512730_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512729_37);
+Obj _3512731_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512732_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512731_37);
+Obj _3512733_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3512734_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512733_37);
+R[1] = _3512732_37;
+R[2] = _3512730_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512664_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512734_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512658_37= co->res;
+Obj _3512728_37= co->res;
 Obj e1 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512658_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512728_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512657_37= co->res;
+Obj _3512727_37= co->res;
 Obj e1 = R[1];
-Obj e2 = _3512657_37;
+Obj e2 = _3512727_37;
 R[1] = e1;
 saveCont(co, clofun35, 1, R);
 coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
@@ -3318,8 +3319,8 @@ return;
 }
 case 3:
 {
-Obj _3512656_37= co->res;
-Obj e1 = _3512656_37;
+Obj _3512726_37= co->res;
+Obj e1 = _3512726_37;
 R[1] = e1;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
@@ -3327,24 +3328,24 @@ return;
 }
 case 4:
 {
-Obj _3512666_37= co->res;
-Obj _3512660_37 = R[1];
-Obj _3512667_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512668_37 = makeCons(co->gc, _3512667_37, Nil);
-Obj _3512669_37 = makeCons(co->gc, _3512666_37, _3512668_37);
-Obj _3512670_37 = makeCons(co->gc, _3512660_37, _3512669_37);
-Obj _3512671_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512670_37);
-coraReturn(co, _3512671_37);
+Obj _3512736_37= co->res;
+Obj _3512730_37 = R[1];
+Obj _3512737_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3512738_37 = makeCons(co->gc, _3512737_37, Nil);
+Obj _3512739_37 = makeCons(co->gc, _3512736_37, _3512738_37);
+Obj _3512740_37 = makeCons(co->gc, _3512730_37, _3512739_37);
+Obj _3512741_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512740_37);
+coraReturn(co, _3512741_37);
 return;
 }
 case 5:
 {
-Obj _3512665_37= co->res;
-Obj _3512662_37 = R[1];
-Obj _3512660_37 = R[2];
-R[1] = _3512660_37;
+Obj _3512735_37= co->res;
+Obj _3512732_37 = R[1];
+Obj _3512730_37 = R[2];
+R[1] = _3512730_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512662_37, _3512665_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512732_37, _3512735_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512652_37 = PRIM_CDR(exp);
+Obj _3512722_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512652_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512722_37);
 return;
 }
 }
@@ -3368,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512642_37 = PRIM_CDR(pat);
+Obj _3512712_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512712_37);
 return;
 }
 case 1:
 {
-Obj _3512647_37= co->res;
-Obj _3512645_37 = R[1];
-Obj _3512648_37 = makeCons(co->gc, _3512647_37, Nil);
-Obj _3512649_37 = makeCons(co->gc, _3512645_37, _3512648_37);
-Obj _3512650_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512649_37);
-coraReturn(co, _3512650_37);
+Obj _3512717_37= co->res;
+Obj _3512715_37 = R[1];
+Obj _3512718_37 = makeCons(co->gc, _3512717_37, Nil);
+Obj _3512719_37 = makeCons(co->gc, _3512715_37, _3512718_37);
+Obj _3512720_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512719_37);
+coraReturn(co, _3512720_37);
 return;
 }
 case 2:
 {
-Obj _3512643_37= co->res;
+Obj _3512713_37= co->res;
 Obj pat = R[1];
-if (True == _3512643_37) {
-Obj _3512644_37 = PRIM_CAR(pat);
-coraReturn(co, _3512644_37);
+if (True == _3512713_37) {
+Obj _3512714_37 = PRIM_CAR(pat);
+coraReturn(co, _3512714_37);
 return;
 } else {
-Obj _3512645_37 = PRIM_CAR(pat);
-Obj _3512646_37 = PRIM_CDR(pat);
-R[1] = _3512645_37;
+Obj _3512715_37 = PRIM_CAR(pat);
+Obj _3512716_37 = PRIM_CDR(pat);
+R[1] = _3512715_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512716_37);
 return;
 }
 }
@@ -3409,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512639_37 = PRIM_EQ(x, True);
-if (True == _3512639_37) {
+Obj _3512709_37 = PRIM_EQ(x, True);
+if (True == _3512709_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512640_37 = PRIM_EQ(x, False);
-if (True == _3512640_37) {
+Obj _3512710_37 = PRIM_EQ(x, False);
+if (True == _3512710_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512637_37 = PRIM_CDR(exp);
+Obj _3512707_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512637_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512707_37);
 return;
 }
 }
@@ -3445,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512625_37 = PRIM_EQ(Nil, l);
-if (True == _3512625_37) {
+Obj _3512695_37 = PRIM_EQ(Nil, l);
+if (True == _3512695_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512626_37 = PRIM_CAR(l);
-Obj _3512627_37 = PRIM_EQ(_3512626_37, False);
-if (True == _3512627_37) {
+Obj _3512696_37 = PRIM_CAR(l);
+Obj _3512697_37 = PRIM_EQ(_3512696_37, False);
+if (True == _3512697_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512628_37 = PRIM_CDR(l);
+Obj _3512698_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512628_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512698_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512629_37= co->res;
+Obj _3512699_37= co->res;
 Obj l = R[1];
-Obj more = _3512629_37;
-Obj _3512630_37 = PRIM_EQ(more, False);
-if (True == _3512630_37) {
+Obj more = _3512699_37;
+Obj _3512700_37 = PRIM_EQ(more, False);
+if (True == _3512700_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512631_37 = PRIM_CAR(l);
-Obj _3512632_37 = makeCons(co->gc, False, Nil);
-Obj _3512633_37 = makeCons(co->gc, more, _3512632_37);
-Obj _3512634_37 = makeCons(co->gc, _3512631_37, _3512633_37);
-Obj _3512635_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512634_37);
-coraReturn(co, _3512635_37);
+Obj _3512701_37 = PRIM_CAR(l);
+Obj _3512702_37 = makeCons(co->gc, False, Nil);
+Obj _3512703_37 = makeCons(co->gc, more, _3512702_37);
+Obj _3512704_37 = makeCons(co->gc, _3512701_37, _3512703_37);
+Obj _3512705_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512704_37);
+coraReturn(co, _3512705_37);
 return;
 }
 }
@@ -3491,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512623_37 = PRIM_CDR(exp);
+Obj _3512693_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512693_37);
 return;
 }
 }
@@ -3504,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512611_37 = PRIM_EQ(l, Nil);
-if (True == _3512611_37) {
+Obj _3512681_37 = PRIM_EQ(l, Nil);
+if (True == _3512681_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512612_37 = PRIM_CAR(l);
-Obj _3512613_37 = PRIM_EQ(_3512612_37, True);
-if (True == _3512613_37) {
+Obj _3512682_37 = PRIM_CAR(l);
+Obj _3512683_37 = PRIM_EQ(_3512682_37, True);
+if (True == _3512683_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512614_37 = PRIM_CDR(l);
+Obj _3512684_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512614_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512684_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512615_37= co->res;
+Obj _3512685_37= co->res;
 Obj l = R[1];
-Obj more = _3512615_37;
-Obj _3512616_37 = PRIM_EQ(more, True);
-if (True == _3512616_37) {
+Obj more = _3512685_37;
+Obj _3512686_37 = PRIM_EQ(more, True);
+if (True == _3512686_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512617_37 = PRIM_CAR(l);
-Obj _3512618_37 = makeCons(co->gc, more, Nil);
-Obj _3512619_37 = makeCons(co->gc, True, _3512618_37);
-Obj _3512620_37 = makeCons(co->gc, _3512617_37, _3512619_37);
-Obj _3512621_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512620_37);
-coraReturn(co, _3512621_37);
+Obj _3512687_37 = PRIM_CAR(l);
+Obj _3512688_37 = makeCons(co->gc, more, Nil);
+Obj _3512689_37 = makeCons(co->gc, True, _3512688_37);
+Obj _3512690_37 = makeCons(co->gc, _3512687_37, _3512689_37);
+Obj _3512691_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512690_37);
+coraReturn(co, _3512691_37);
 return;
 }
 }
@@ -3550,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512597_37 = PRIM_CDR(exp);
-Obj _3512598_37 = PRIM_EQ(Nil, _3512597_37);
-if (True == _3512598_37) {
-Obj _3512599_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512600_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512599_37);
-coraReturn(co, _3512600_37);
+Obj _3512667_37 = PRIM_CDR(exp);
+Obj _3512668_37 = PRIM_EQ(Nil, _3512667_37);
+if (True == _3512668_37) {
+Obj _3512669_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3512670_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512669_37);
+coraReturn(co, _3512670_37);
 return;
 } else {
 R[1] = exp;
@@ -3566,36 +3567,36 @@ return;
 }
 case 1:
 {
-Obj _3512604_37= co->res;
-Obj _3512603_37 = R[1];
-Obj _3512602_37 = R[2];
-Obj _3512605_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512604_37);
-Obj _3512606_37 = makeCons(co->gc, _3512605_37, Nil);
-Obj _3512607_37 = makeCons(co->gc, _3512603_37, _3512606_37);
-Obj _3512608_37 = makeCons(co->gc, _3512602_37, _3512607_37);
-Obj _3512609_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512608_37);
-coraReturn(co, _3512609_37);
+Obj _3512674_37= co->res;
+Obj _3512673_37 = R[1];
+Obj _3512672_37 = R[2];
+Obj _3512675_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512674_37);
+Obj _3512676_37 = makeCons(co->gc, _3512675_37, Nil);
+Obj _3512677_37 = makeCons(co->gc, _3512673_37, _3512676_37);
+Obj _3512678_37 = makeCons(co->gc, _3512672_37, _3512677_37);
+Obj _3512679_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512678_37);
+coraReturn(co, _3512679_37);
 return;
 }
 case 2:
 {
-Obj _3512603_37= co->res;
+Obj _3512673_37= co->res;
 Obj exp = R[1];
-Obj _3512602_37 = R[2];
-R[1] = _3512603_37;
-R[2] = _3512602_37;
+Obj _3512672_37 = R[2];
+R[1] = _3512673_37;
+R[2] = _3512672_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 3:
 {
-Obj _3512601_37= co->res;
+Obj _3512671_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512601_37;
-Obj _3512602_37 = PRIM_CAR(curr);
+Obj curr = _3512671_37;
+Obj _3512672_37 = PRIM_CAR(curr);
 R[1] = exp;
-R[2] = _3512602_37;
+R[2] = _3512672_37;
 saveCont(co, clofun27, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
 return;
@@ -3608,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512595_37 = PRIM_CDR(exp);
+Obj _3512665_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512665_37);
 return;
 }
 }
@@ -3621,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512583_37 = PRIM_CDR(exp);
+Obj _3512653_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512583_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512653_37);
 return;
 }
 case 1:
 {
-Obj _3512589_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-Obj _3512590_37 = makeCons(co->gc, _3512589_37, Nil);
-Obj _3512591_37 = makeCons(co->gc, _3512587_37, _3512590_37);
-Obj _3512592_37 = makeCons(co->gc, _3512586_37, _3512591_37);
-Obj _3512593_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512592_37);
-coraReturn(co, _3512593_37);
+Obj _3512659_37= co->res;
+Obj _3512657_37 = R[1];
+Obj _3512656_37 = R[2];
+Obj _3512660_37 = makeCons(co->gc, _3512659_37, Nil);
+Obj _3512661_37 = makeCons(co->gc, _3512657_37, _3512660_37);
+Obj _3512662_37 = makeCons(co->gc, _3512656_37, _3512661_37);
+Obj _3512663_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512662_37);
+coraReturn(co, _3512663_37);
 return;
 }
 case 2:
 {
-Obj _3512588_37= co->res;
-Obj _3512587_37 = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj _3512658_37= co->res;
+Obj _3512657_37 = R[1];
+Obj _3512656_37 = R[2];
+R[1] = _3512657_37;
+R[2] = _3512656_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512588_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512658_37);
 return;
 }
 case 3:
 {
-Obj _3512587_37= co->res;
+Obj _3512657_37= co->res;
 Obj exp = R[1];
-Obj _3512586_37 = R[2];
-R[1] = _3512587_37;
-R[2] = _3512586_37;
+Obj _3512656_37 = R[2];
+R[1] = _3512657_37;
+R[2] = _3512656_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512584_37= co->res;
+Obj _3512654_37= co->res;
 Obj exp = R[1];
-if (True == _3512584_37) {
-Obj _3512585_37 = PRIM_CAR(exp);
-coraReturn(co, _3512585_37);
+if (True == _3512654_37) {
+Obj _3512655_37 = PRIM_CAR(exp);
+coraReturn(co, _3512655_37);
 return;
 } else {
-Obj _3512586_37 = PRIM_CAR(exp);
+Obj _3512656_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512586_37;
+R[2] = _3512656_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
@@ -3686,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512580_37 = PRIM_ISCONS(x);
-Obj _3512581_37 = primNot(_3512580_37);
-coraReturn(co, _3512581_37);
+Obj _3512650_37 = PRIM_ISCONS(x);
+Obj _3512651_37 = primNot(_3512650_37);
+coraReturn(co, _3512651_37);
 return;
 }
 }
@@ -3700,17 +3701,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512575_37 = PRIM_ISCONS(l);
-if (True == _3512575_37) {
-Obj _3512576_37 = PRIM_CAR(l);
-Obj _3512577_37 = PRIM_EQ(_3512576_37, x);
-if (True == _3512577_37) {
+Obj _3512645_37 = PRIM_ISCONS(l);
+if (True == _3512645_37) {
+Obj _3512646_37 = PRIM_CAR(l);
+Obj _3512647_37 = PRIM_EQ(_3512646_37, x);
+if (True == _3512647_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512578_37 = PRIM_CDR(l);
+Obj _3512648_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512648_37);
 return;
 }
 } else {
@@ -3733,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj _3512567_37= co->res;
-Obj _3512566_37 = R[1];
-Obj _3512565_37 = R[2];
-Obj _3512568_37 = makeCons(co->gc, _3512567_37, Nil);
-Obj _3512569_37 = makeCons(co->gc, _3512566_37, _3512568_37);
-Obj _3512570_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512569_37);
-Obj _3512571_37 = makeCons(co->gc, _3512570_37, Nil);
-Obj _3512572_37 = makeCons(co->gc, _3512565_37, _3512571_37);
-Obj _3512573_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512572_37);
-coraReturn(co, _3512573_37);
+Obj _3512637_37= co->res;
+Obj _3512636_37 = R[1];
+Obj _3512635_37 = R[2];
+Obj _3512638_37 = makeCons(co->gc, _3512637_37, Nil);
+Obj _3512639_37 = makeCons(co->gc, _3512636_37, _3512638_37);
+Obj _3512640_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512639_37);
+Obj _3512641_37 = makeCons(co->gc, _3512640_37, Nil);
+Obj _3512642_37 = makeCons(co->gc, _3512635_37, _3512641_37);
+Obj _3512643_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512642_37);
+coraReturn(co, _3512643_37);
 return;
 }
 case 2:
 {
-Obj _3512566_37= co->res;
+Obj _3512636_37= co->res;
 Obj exp = R[1];
-Obj _3512565_37 = R[2];
-R[1] = _3512566_37;
-R[2] = _3512565_37;
+Obj _3512635_37 = R[2];
+R[1] = _3512636_37;
+R[2] = _3512635_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512565_37= co->res;
+Obj _3512635_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512565_37;
+R[2] = _3512635_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3774,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512563_37 = PRIM_CDR(exp);
+Obj _3512633_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512563_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512633_37);
 return;
 }
 }
@@ -3794,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj _3512555_37= co->res;
-Obj _3512554_37 = R[1];
-Obj _3512553_37 = R[2];
-Obj _3512556_37 = makeCons(co->gc, _3512554_37, _3512555_37);
-Obj _3512557_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512556_37);
-Obj _3512558_37 = makeCons(co->gc, _3512557_37, Nil);
-Obj _3512559_37 = makeCons(co->gc, _3512553_37, _3512558_37);
-Obj _3512560_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512559_37);
-coraReturn(co, _3512560_37);
+Obj _3512625_37= co->res;
+Obj _3512624_37 = R[1];
+Obj _3512623_37 = R[2];
+Obj _3512626_37 = makeCons(co->gc, _3512624_37, _3512625_37);
+Obj _3512627_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512626_37);
+Obj _3512628_37 = makeCons(co->gc, _3512627_37, Nil);
+Obj _3512629_37 = makeCons(co->gc, _3512623_37, _3512628_37);
+Obj _3512630_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512629_37);
+coraReturn(co, _3512630_37);
 return;
 }
 case 2:
 {
-Obj _3512554_37= co->res;
+Obj _3512624_37= co->res;
 Obj exp = R[1];
-Obj _3512553_37 = R[2];
-R[1] = _3512554_37;
-R[2] = _3512553_37;
+Obj _3512623_37 = R[2];
+R[1] = _3512624_37;
+R[2] = _3512623_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
 return;
 }
 case 3:
 {
-Obj _3512551_37= co->res;
+Obj _3512621_37= co->res;
 Obj exp = R[1];
-Obj _3512552_37 = makeCons(co->gc, _3512551_37, Nil);
-Obj _3512553_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512552_37);
+Obj _3512622_37 = makeCons(co->gc, _3512621_37, Nil);
+Obj _3512623_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512622_37);
 R[1] = exp;
-R[2] = _3512553_37;
+R[2] = _3512623_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3836,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512533_37 = PRIM_ISCONS(exp);
-if (True == _3512533_37) {
-Obj _3512534_37 = PRIM_CAR(exp);
-Obj _3512535_37 = PRIM_EQ(_3512534_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512535_37) {
-Obj _3512536_37 = PRIM_CDR(exp);
-coraReturn(co, _3512536_37);
-return;
-} else {
-Obj _3512537_37 = PRIM_CAR(exp);
-Obj _3512538_37 = PRIM_EQ(_3512537_37, getBinding(co, packageID, 140).name);
-if (True == _3512538_37) {
+Obj _3512603_37 = PRIM_ISCONS(exp);
+if (True == _3512603_37) {
+Obj _3512604_37 = PRIM_CAR(exp);
+Obj _3512605_37 = PRIM_EQ(_3512604_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == _3512605_37) {
+Obj _3512606_37 = PRIM_CDR(exp);
+coraReturn(co, _3512606_37);
+return;
+} else {
+Obj _3512607_37 = PRIM_CAR(exp);
+Obj _3512608_37 = PRIM_EQ(_3512607_37, getBinding(co, packageID, 140).name);
+if (True == _3512608_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
 } else {
-Obj _3512545_37 = PRIM_CAR(exp);
-Obj _3512546_37 = PRIM_EQ(_3512545_37, getBinding(co, packageID, 139).name);
-if (True == _3512546_37) {
+Obj _3512615_37 = PRIM_CAR(exp);
+Obj _3512616_37 = PRIM_EQ(_3512615_37, getBinding(co, packageID, 139).name);
+if (True == _3512616_37) {
 coraReturn(co, exp);
 return;
 } else {
@@ -3873,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj _3512541_37= co->res;
-Obj _3512539_37 = R[1];
-Obj _3512542_37 = makeCons(co->gc, _3512541_37, Nil);
-Obj _3512543_37 = makeCons(co->gc, _3512539_37, _3512542_37);
-Obj _3512544_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512543_37);
-coraReturn(co, _3512544_37);
+Obj _3512611_37= co->res;
+Obj _3512609_37 = R[1];
+Obj _3512612_37 = makeCons(co->gc, _3512611_37, Nil);
+Obj _3512613_37 = makeCons(co->gc, _3512609_37, _3512612_37);
+Obj _3512614_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512613_37);
+coraReturn(co, _3512614_37);
 return;
 }
 case 2:
 {
-Obj _3512540_37= co->res;
-Obj _3512539_37 = R[1];
-R[1] = _3512539_37;
+Obj _3512610_37= co->res;
+Obj _3512609_37 = R[1];
+R[1] = _3512609_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512540_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512610_37);
 return;
 }
 case 3:
 {
-Obj _3512539_37= co->res;
+Obj _3512609_37= co->res;
 Obj exp = R[1];
-R[1] = _3512539_37;
+R[1] = _3512609_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 4:
 {
-Obj _3512548_37= co->res;
+Obj _3512618_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512548_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512618_37);
 return;
 }
 }
@@ -3915,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512547_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512547_37) {
+Obj _3512617_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3512617_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
 return;
@@ -3947,14 +3948,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512523_37 = PRIM_EQ(Nil, macros);
-if (True == _3512523_37) {
+Obj _3512593_37 = PRIM_EQ(Nil, macros);
+if (True == _3512593_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512530_37 = PRIM_CAR(macros);
+Obj _3512600_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512530_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512600_37);
 return;
 }
 }
@@ -3966,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512451_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512526_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512526_37) {
-Obj _3512527_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512528_37 = PRIM_CAR(item);
-Obj _3512529_37 = PRIM_EQ(_3512527_37, _3512528_37);
-if (True == _3512529_37) {
+Obj _3512521_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3512596_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3512596_37) {
+Obj _3512597_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3512598_37 = PRIM_CAR(item);
+Obj _3512599_37 = PRIM_EQ(_3512597_37, _3512598_37);
+if (True == _3512599_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, True);
+coraCall1(co, _3512521_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, _3512521_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512451_37, False);
+coraCall1(co, _3512521_37, False);
 return;
 }
 }
@@ -3994,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512452_37 = R[1];
-if (True == _3512452_37) {
-Obj _3512524_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3512522_37 = R[1];
+if (True == _3512522_37) {
+Obj _3512594_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512524_37, closureRef(R[0], 1));
+coraCall1(co, _3512594_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512525_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3512595_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512525_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512595_37);
 return;
 }
 }
@@ -4016,10 +4017,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512519_37 = makeCons(co->gc, n, v);
-Obj _3512520_37 = makeCons(co->gc, _3512519_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512521_37 = primSet(co, getBinding(co, packageID, 146).name, _3512520_37);
-coraReturn(co, _3512521_37);
+Obj _3512589_37 = makeCons(co->gc, n, v);
+Obj _3512590_37 = makeCons(co->gc, _3512589_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj _3512591_37 = primSet(co, getBinding(co, packageID, 146).name, _3512590_37);
+coraReturn(co, _3512591_37);
 return;
 }
 }
@@ -4045,14 +4046,14 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512509_37 = PRIM_ISCONS(l);
-if (True == _3512509_37) {
-Obj _3512510_37 = PRIM_CAR(l);
+Obj _3512579_37 = PRIM_ISCONS(l);
+if (True == _3512579_37) {
+Obj _3512580_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512510_37);
+coraCall1(co, f, _3512580_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4062,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj _3512511_37= co->res;
+Obj _3512581_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512512_37 = makeCons(co->gc, _3512511_37, res);
-Obj _3512513_37 = PRIM_CDR(l);
+Obj _3512582_37 = makeCons(co->gc, _3512581_37, res);
+Obj _3512583_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512512_37, f, _3512513_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512582_37, f, _3512583_37);
 return;
 }
 }
@@ -4081,13 +4082,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512502_37 = PRIM_ISCONS(l);
-if (True == _3512502_37) {
-Obj _3512503_37 = PRIM_CAR(l);
-Obj _3512504_37 = makeCons(co->gc, _3512503_37, res);
-Obj _3512505_37 = PRIM_CDR(l);
+Obj _3512572_37 = PRIM_ISCONS(l);
+if (True == _3512572_37) {
+Obj _3512573_37 = PRIM_CAR(l);
+Obj _3512574_37 = makeCons(co->gc, _3512573_37, res);
+Obj _3512575_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512504_37, _3512505_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512574_37, _3512575_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4102,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512500_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512500_37);
+Obj _3512570_37 = PRIM_ISCONS(x);
+coraReturn(co, _3512570_37);
 return;
 }
 }
@@ -4114,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512492_37 = PRIM_ISCONS(exp);
-if (True == _3512492_37) {
-Obj _3512493_37 = PRIM_CAR(exp);
-Obj _3512494_37 = PRIM_CDR(exp);
-R[1] = _3512493_37;
+Obj _3512562_37 = PRIM_ISCONS(exp);
+if (True == _3512562_37) {
+Obj _3512563_37 = PRIM_CAR(exp);
+Obj _3512564_37 = PRIM_CDR(exp);
+R[1] = _3512563_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512494_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512564_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4129,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj _3512495_37= co->res;
-Obj _3512493_37 = R[1];
-Obj _3512496_37 = makeCons(co->gc, _3512495_37, Nil);
-Obj _3512497_37 = makeCons(co->gc, _3512493_37, _3512496_37);
-Obj _3512498_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512497_37);
-coraReturn(co, _3512498_37);
+Obj _3512565_37= co->res;
+Obj _3512563_37 = R[1];
+Obj _3512566_37 = makeCons(co->gc, _3512565_37, Nil);
+Obj _3512567_37 = makeCons(co->gc, _3512563_37, _3512566_37);
+Obj _3512568_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512567_37);
+coraReturn(co, _3512568_37);
 return;
 }
 }
@@ -4145,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512488_37 = PRIM_CDR(x);
-Obj _3512489_37 = PRIM_CDR(_3512488_37);
-Obj _3512490_37 = PRIM_CDR(_3512489_37);
-coraReturn(co, _3512490_37);
+Obj _3512558_37 = PRIM_CDR(x);
+Obj _3512559_37 = PRIM_CDR(_3512558_37);
+Obj _3512560_37 = PRIM_CDR(_3512559_37);
+coraReturn(co, _3512560_37);
 return;
 }
 }
@@ -4159,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512483_37 = PRIM_CDR(x);
-Obj _3512484_37 = PRIM_CDR(_3512483_37);
-Obj _3512485_37 = PRIM_CDR(_3512484_37);
-Obj _3512486_37 = PRIM_CAR(_3512485_37);
-coraReturn(co, _3512486_37);
+Obj _3512553_37 = PRIM_CDR(x);
+Obj _3512554_37 = PRIM_CDR(_3512553_37);
+Obj _3512555_37 = PRIM_CDR(_3512554_37);
+Obj _3512556_37 = PRIM_CAR(_3512555_37);
+coraReturn(co, _3512556_37);
 return;
 }
 }
@@ -4174,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512479_37 = PRIM_CDR(x);
-Obj _3512480_37 = PRIM_CDR(_3512479_37);
-Obj _3512481_37 = PRIM_CAR(_3512480_37);
-coraReturn(co, _3512481_37);
+Obj _3512549_37 = PRIM_CDR(x);
+Obj _3512550_37 = PRIM_CDR(_3512549_37);
+Obj _3512551_37 = PRIM_CAR(_3512550_37);
+coraReturn(co, _3512551_37);
 return;
 }
 }
@@ -4188,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512476_37 = PRIM_CDR(x);
-Obj _3512477_37 = PRIM_CDR(_3512476_37);
-coraReturn(co, _3512477_37);
+Obj _3512546_37 = PRIM_CDR(x);
+Obj _3512547_37 = PRIM_CDR(_3512546_37);
+coraReturn(co, _3512547_37);
 return;
 }
 }
@@ -4201,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512473_37 = PRIM_CAR(x);
-Obj _3512474_37 = PRIM_CDR(_3512473_37);
-coraReturn(co, _3512474_37);
+Obj _3512543_37 = PRIM_CAR(x);
+Obj _3512544_37 = PRIM_CDR(_3512543_37);
+coraReturn(co, _3512544_37);
 return;
 }
 }
@@ -4214,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512470_37 = PRIM_CAR(x);
-Obj _3512471_37 = PRIM_CAR(_3512470_37);
-coraReturn(co, _3512471_37);
+Obj _3512540_37 = PRIM_CAR(x);
+Obj _3512541_37 = PRIM_CAR(_3512540_37);
+coraReturn(co, _3512541_37);
 return;
 }
 }
@@ -4227,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512467_37 = PRIM_CDR(x);
-Obj _3512468_37 = PRIM_CAR(_3512467_37);
-coraReturn(co, _3512468_37);
+Obj _3512537_37 = PRIM_CDR(x);
+Obj _3512538_37 = PRIM_CAR(_3512537_37);
+coraReturn(co, _3512538_37);
 return;
 }
 }
@@ -4240,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512465_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512465_37);
+Obj _3512535_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3512535_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index ac5b776..a9124a4 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -284,6 +284,7 @@ __symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
 __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
+stackAlloc(co, 1);
 co->ctx.fn = clofun144;
 co->ctx.label = 0;
 }
@@ -298,152 +299,152 @@ return;
 }
 case 1:
 {
-Obj _3518160_37= co->res;
-Obj _3518166_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj _3518172_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518194_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj _3518213_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 4, clofun115, 3, 0));
-Obj _3518223_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 4, clofun118, 3, 0));
-Obj _3518264_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj _3518303_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj _3518355_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj _3518356_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518370_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj _3518371_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518384_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj _3518394_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, _3518394_37);
+Obj _3518230_37= co->res;
+Obj _3518236_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj _3518242_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj _3518264_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
+Obj _3518287_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun115, 4, 0));
+Obj _3518299_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun118, 3, 0));
+Obj _3518340_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
+Obj _3518379_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
+Obj _3518431_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
+Obj _3518432_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj _3518446_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
+Obj _3518447_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj _3518460_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
+Obj _3518470_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
+coraReturn(co, _3518470_37);
 return;
 }
 case 2:
 {
-Obj _3516778_37= co->res;
-Obj _3516779_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516794_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516800_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516810_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516811_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516818_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516819_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516820_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516819_37);
-Obj _3516821_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516820_37);
-Obj _3516822_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516823_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516822_37);
-Obj _3516824_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516823_37);
-Obj _3516825_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516826_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516825_37);
-Obj _3516827_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516826_37);
-Obj _3516828_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516829_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516828_37);
-Obj _3516830_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516829_37);
-Obj _3516831_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516832_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516831_37);
-Obj _3516833_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516832_37);
-Obj _3516834_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516835_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516834_37);
-Obj _3516836_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516835_37);
-Obj _3516837_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516838_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516837_37);
-Obj _3516839_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516838_37);
-Obj _3516840_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516841_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516840_37);
-Obj _3516842_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516841_37);
-Obj _3516843_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516844_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516843_37);
-Obj _3516845_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516844_37);
-Obj _3516846_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516847_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516846_37);
-Obj _3516848_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516847_37);
-Obj _3516849_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516850_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516849_37);
-Obj _3516851_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516850_37);
-Obj _3516852_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516853_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516852_37);
-Obj _3516854_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516853_37);
-Obj _3516855_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516856_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516855_37);
-Obj _3516857_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516856_37);
-Obj _3516858_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516859_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516858_37);
-Obj _3516860_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516859_37);
-Obj _3516861_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516862_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516861_37);
-Obj _3516863_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516862_37);
-Obj _3516864_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516865_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516864_37);
-Obj _3516866_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516865_37);
-Obj _3516867_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516868_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516867_37);
-Obj _3516869_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516868_37);
-Obj _3516870_37 = makeCons(co->gc, _3516869_37, Nil);
-Obj _3516871_37 = makeCons(co->gc, _3516866_37, _3516870_37);
-Obj _3516872_37 = makeCons(co->gc, _3516863_37, _3516871_37);
-Obj _3516873_37 = makeCons(co->gc, _3516860_37, _3516872_37);
-Obj _3516874_37 = makeCons(co->gc, _3516857_37, _3516873_37);
-Obj _3516875_37 = makeCons(co->gc, _3516854_37, _3516874_37);
-Obj _3516876_37 = makeCons(co->gc, _3516851_37, _3516875_37);
-Obj _3516877_37 = makeCons(co->gc, _3516848_37, _3516876_37);
-Obj _3516878_37 = makeCons(co->gc, _3516845_37, _3516877_37);
-Obj _3516879_37 = makeCons(co->gc, _3516842_37, _3516878_37);
-Obj _3516880_37 = makeCons(co->gc, _3516839_37, _3516879_37);
-Obj _3516881_37 = makeCons(co->gc, _3516836_37, _3516880_37);
-Obj _3516882_37 = makeCons(co->gc, _3516833_37, _3516881_37);
-Obj _3516883_37 = makeCons(co->gc, _3516830_37, _3516882_37);
-Obj _3516884_37 = makeCons(co->gc, _3516827_37, _3516883_37);
-Obj _3516885_37 = makeCons(co->gc, _3516824_37, _3516884_37);
-Obj _3516886_37 = makeCons(co->gc, _3516821_37, _3516885_37);
-Obj _3516887_37 = primSet(co, getBinding(co, packageID, 122).name, _3516886_37);
-Obj _3516891_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516894_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516897_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516902_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517096_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517107_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517118_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517179_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517354_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517427_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj _3517430_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3517567_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3517590_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj _3517667_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj _3517698_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj _3517704_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj _3517709_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj _3517718_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj _3517769_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj _3517777_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj _3517784_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj _3517789_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj _3517795_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj _3517796_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj _3517803_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj _3517810_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj _3518097_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj _3518111_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj _3518133_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj _3518135_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj _3518139_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518140_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518141_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj _3518142_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518143_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518150_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj _3518157_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
+Obj _3516848_37= co->res;
+Obj _3516849_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj _3516864_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3516870_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3516880_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3516881_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3516888_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3516889_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3516890_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516889_37);
+Obj _3516891_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516890_37);
+Obj _3516892_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3516893_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516892_37);
+Obj _3516894_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516893_37);
+Obj _3516895_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3516896_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516895_37);
+Obj _3516897_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516896_37);
+Obj _3516898_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3516899_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516898_37);
+Obj _3516900_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516899_37);
+Obj _3516901_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3516902_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516901_37);
+Obj _3516903_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516902_37);
+Obj _3516904_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3516905_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516904_37);
+Obj _3516906_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516905_37);
+Obj _3516907_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3516908_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516907_37);
+Obj _3516909_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516908_37);
+Obj _3516910_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3516911_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516910_37);
+Obj _3516912_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516911_37);
+Obj _3516913_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3516914_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516913_37);
+Obj _3516915_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516914_37);
+Obj _3516916_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3516917_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516916_37);
+Obj _3516918_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516917_37);
+Obj _3516919_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3516920_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516919_37);
+Obj _3516921_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516920_37);
+Obj _3516922_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3516923_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516922_37);
+Obj _3516924_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516923_37);
+Obj _3516925_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3516926_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516925_37);
+Obj _3516927_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516926_37);
+Obj _3516928_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3516929_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516928_37);
+Obj _3516930_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516929_37);
+Obj _3516931_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3516932_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516931_37);
+Obj _3516933_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516932_37);
+Obj _3516934_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3516935_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516934_37);
+Obj _3516936_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516935_37);
+Obj _3516937_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3516938_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516937_37);
+Obj _3516939_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516938_37);
+Obj _3516940_37 = makeCons(co->gc, _3516939_37, Nil);
+Obj _3516941_37 = makeCons(co->gc, _3516936_37, _3516940_37);
+Obj _3516942_37 = makeCons(co->gc, _3516933_37, _3516941_37);
+Obj _3516943_37 = makeCons(co->gc, _3516930_37, _3516942_37);
+Obj _3516944_37 = makeCons(co->gc, _3516927_37, _3516943_37);
+Obj _3516945_37 = makeCons(co->gc, _3516924_37, _3516944_37);
+Obj _3516946_37 = makeCons(co->gc, _3516921_37, _3516945_37);
+Obj _3516947_37 = makeCons(co->gc, _3516918_37, _3516946_37);
+Obj _3516948_37 = makeCons(co->gc, _3516915_37, _3516947_37);
+Obj _3516949_37 = makeCons(co->gc, _3516912_37, _3516948_37);
+Obj _3516950_37 = makeCons(co->gc, _3516909_37, _3516949_37);
+Obj _3516951_37 = makeCons(co->gc, _3516906_37, _3516950_37);
+Obj _3516952_37 = makeCons(co->gc, _3516903_37, _3516951_37);
+Obj _3516953_37 = makeCons(co->gc, _3516900_37, _3516952_37);
+Obj _3516954_37 = makeCons(co->gc, _3516897_37, _3516953_37);
+Obj _3516955_37 = makeCons(co->gc, _3516894_37, _3516954_37);
+Obj _3516956_37 = makeCons(co->gc, _3516891_37, _3516955_37);
+Obj _3516957_37 = primSet(co, getBinding(co, packageID, 122).name, _3516956_37);
+Obj _3516961_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3516964_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3516967_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3516972_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3517166_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
+Obj _3517177_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
+Obj _3517188_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj _3517249_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj _3517424_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
+Obj _3517497_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
+Obj _3517500_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj _3517637_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3517660_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
+Obj _3517737_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
+Obj _3517768_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
+Obj _3517774_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
+Obj _3517779_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
+Obj _3517788_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj _3517839_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
+Obj _3517847_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
+Obj _3517854_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3517859_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj _3517865_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
+Obj _3517866_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
+Obj _3517873_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
+Obj _3517880_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj _3518167_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
+Obj _3518181_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj _3518203_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
+Obj _3518205_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
+Obj _3518209_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj _3518210_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj _3518211_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
+Obj _3518212_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj _3518213_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj _3518220_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
+Obj _3518227_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
 saveCont(co, clofun144, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516777_37= co->res;
+Obj _3516847_37= co->res;
 saveCont(co, clofun144, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516776_37= co->res;
+Obj _3516846_37= co->res;
 saveCont(co, clofun144, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -457,9 +458,9 @@ case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518385_37 = primGenSym(co);
-Obj globals = _3518385_37;
-Obj _3518386_37 = primSet(co, globals, Nil);
+Obj _3518461_37 = primGenSym(co);
+Obj globals = _3518461_37;
+Obj _3518462_37 = primSet(co, globals, Nil);
 R[1] = from;
 R[2] = to;
 R[3] = globals;
@@ -469,7 +470,7 @@ return;
 }
 case 1:
 {
-Obj _3518393_37= co->res;
+Obj _3518469_37= co->res;
 Obj stream = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
@@ -477,20 +478,20 @@ return;
 }
 case 2:
 {
-Obj _3518392_37= co->res;
+Obj _3518468_37= co->res;
 Obj bc = R[1];
 Obj stream = R[2];
 R[1] = stream;
 saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518392_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518468_37);
 return;
 }
 case 3:
 {
-Obj _3518391_37= co->res;
+Obj _3518467_37= co->res;
 Obj globals = R[1];
 Obj bc = R[2];
-Obj stream = _3518391_37;
+Obj stream = _3518467_37;
 R[1] = bc;
 R[2] = stream;
 saveCont(co, clofun143, 2, R);
@@ -499,10 +500,10 @@ return;
 }
 case 4:
 {
-Obj _3518390_37= co->res;
+Obj _3518466_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
-Obj bc = _3518390_37;
+Obj bc = _3518466_37;
 R[1] = globals;
 R[2] = bc;
 saveCont(co, clofun143, 3, R);
@@ -511,36 +512,36 @@ return;
 }
 case 5:
 {
-Obj _3518389_37= co->res;
-Obj _3518387_37 = R[1];
+Obj _3518465_37= co->res;
+Obj _3518463_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 saveCont(co, clofun143, 4, R);
-coraCall1(co, _3518387_37, _3518389_37);
+coraCall1(co, _3518463_37, _3518465_37);
 return;
 }
 case 6:
 {
-Obj _3518388_37= co->res;
-Obj _3518387_37 = R[1];
+Obj _3518464_37= co->res;
+Obj _3518463_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518387_37;
+R[1] = _3518463_37;
 R[2] = to;
 R[3] = globals;
 saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518388_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518464_37);
 return;
 }
 case 7:
 {
-Obj _3518387_37= co->res;
+Obj _3518463_37= co->res;
 Obj from = R[1];
 Obj to = R[2];
 Obj globals = R[3];
-R[1] = _3518387_37;
+R[1] = _3518463_37;
 R[2] = to;
 R[3] = globals;
 saveCont(co, clofun143, 6, R);
@@ -561,7 +562,7 @@ return;
 }
 case 1:
 {
-Obj _3518379_37= co->res;
+Obj _3518455_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -569,7 +570,7 @@ return;
 }
 case 2:
 {
-Obj _3518378_37= co->res;
+Obj _3518454_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun142, 1, R);
@@ -578,7 +579,7 @@ return;
 }
 case 3:
 {
-Obj _3518381_37= co->res;
+Obj _3518457_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -586,7 +587,7 @@ return;
 }
 case 4:
 {
-Obj _3518380_37= co->res;
+Obj _3518456_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun142, 3, R);
@@ -595,7 +596,7 @@ return;
 }
 case 5:
 {
-Obj _3518383_37= co->res;
+Obj _3518459_37= co->res;
 Obj sexp = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
@@ -603,7 +604,7 @@ return;
 }
 case 6:
 {
-Obj _3518382_37= co->res;
+Obj _3518458_37= co->res;
 Obj sexp = R[1];
 R[1] = sexp;
 saveCont(co, clofun142, 5, R);
@@ -612,36 +613,36 @@ return;
 }
 case 7:
 {
-Obj _3518375_37= co->res;
-Obj _3516774_37 = R[1];
+Obj _3518451_37= co->res;
+Obj _3516844_37 = R[1];
 Obj sexp = R[2];
-if (True == _3518375_37) {
-Obj _3518376_37 = PRIM_CAR(sexp);
-Obj _3518377_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518376_37);
-if (True == _3518377_37) {
+if (True == _3518451_37) {
+Obj _3518452_37 = PRIM_CAR(sexp);
+Obj _3518453_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518452_37);
+if (True == _3518453_37) {
 R[1] = sexp;
 saveCont(co, clofun142, 2, R);
-coraCall1(co, _3516774_37, True);
+coraCall1(co, _3516844_37, True);
 return;
 } else {
 R[1] = sexp;
 saveCont(co, clofun142, 4, R);
-coraCall1(co, _3516774_37, False);
+coraCall1(co, _3516844_37, False);
 return;
 }
 } else {
 R[1] = sexp;
 saveCont(co, clofun142, 6, R);
-coraCall1(co, _3516774_37, False);
+coraCall1(co, _3516844_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518372_37= co->res;
-Obj sexp = _3518372_37;
-Obj _3516774_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
-R[1] = _3516774_37;
+Obj _3518448_37= co->res;
+Obj sexp = _3518448_37;
+Obj _3516844_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
+R[1] = _3516844_37;
 R[2] = sexp;
 saveCont(co, clofun142, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
@@ -654,14 +655,14 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516775_37 = R[1];
-if (True == _3516775_37) {
-Obj _3518373_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518373_37);
+Obj _3516845_37 = R[1];
+if (True == _3516845_37) {
+Obj _3518449_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, _3518449_37);
 return;
 } else {
-Obj _3518374_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518374_37);
+Obj _3518450_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, _3518450_37);
 return;
 }
 }
@@ -672,27 +673,27 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516762_37 = R[1];
-Obj _3516763_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516762_37);
-Obj _3518365_37 = PRIM_ISCONS(_3516762_37);
-if (True == _3518365_37) {
-Obj _3518366_37 = PRIM_CAR(_3516762_37);
-Obj _3518367_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518366_37);
-if (True == _3518367_37) {
-Obj _3518368_37 = PRIM_CDR(_3516762_37);
-Obj more = _3518368_37;
-Obj _3518369_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3516832_37 = R[1];
+Obj _3516833_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516832_37);
+Obj _3518441_37 = PRIM_ISCONS(_3516832_37);
+if (True == _3518441_37) {
+Obj _3518442_37 = PRIM_CAR(_3516832_37);
+Obj _3518443_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518442_37);
+if (True == _3518443_37) {
+Obj _3518444_37 = PRIM_CDR(_3516832_37);
+Obj more = _3518444_37;
+Obj _3518445_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518369_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518445_37, makeNative(co->gc, 2, clofun139, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3516833_37);
 return;
 }
 }
@@ -728,26 +729,26 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516764_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj _3518360_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518360_37) {
-Obj _3518361_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518362_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518361_37);
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518363_37;
-Obj _3518364_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3516834_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
+Obj _3518436_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518436_37) {
+Obj _3518437_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518438_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518437_37);
+if (True == _3518438_37) {
+Obj _3518439_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518439_37;
+Obj _3518440_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518364_37, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518440_37, makeNative(co->gc, 2, clofun136, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3516834_37);
 return;
 }
 }
@@ -783,9 +784,9 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518357_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518433_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518357_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518433_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
 return;
 }
 }
@@ -803,9 +804,9 @@ return;
 }
 case 1:
 {
-Obj _3518358_37= co->res;
-Obj _3518359_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518358_37);
-coraReturn(co, _3518359_37);
+Obj _3518434_37= co->res;
+Obj _3518435_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518434_37);
+coraReturn(co, _3518435_37);
 return;
 }
 }
@@ -833,50 +834,50 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516755_37 = R[1];
-Obj _3516756_37 = R[2];
-Obj _3516757_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516755_37, _3516756_37);
-Obj _3518343_37 = PRIM_ISCONS(_3516755_37);
-if (True == _3518343_37) {
-Obj _3518344_37 = PRIM_CAR(_3516755_37);
-Obj _3518345_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518344_37);
-if (True == _3518345_37) {
-Obj _3518346_37 = PRIM_CDR(_3516755_37);
-Obj _3518347_37 = PRIM_ISCONS(_3518346_37);
-if (True == _3518347_37) {
-Obj _3518348_37 = PRIM_CDR(_3516755_37);
-Obj _3518349_37 = PRIM_CAR(_3518348_37);
-Obj name = _3518349_37;
-Obj _3518350_37 = PRIM_CDR(_3516755_37);
-Obj _3518351_37 = PRIM_CDR(_3518350_37);
-Obj more = _3518351_37;
+Obj _3516825_37 = R[1];
+Obj _3516826_37 = R[2];
+Obj _3516827_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516825_37, _3516826_37);
+Obj _3518419_37 = PRIM_ISCONS(_3516825_37);
+if (True == _3518419_37) {
+Obj _3518420_37 = PRIM_CAR(_3516825_37);
+Obj _3518421_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518420_37);
+if (True == _3518421_37) {
+Obj _3518422_37 = PRIM_CDR(_3516825_37);
+Obj _3518423_37 = PRIM_ISCONS(_3518422_37);
+if (True == _3518423_37) {
+Obj _3518424_37 = PRIM_CDR(_3516825_37);
+Obj _3518425_37 = PRIM_CAR(_3518424_37);
+Obj name = _3518425_37;
+Obj _3518426_37 = PRIM_CDR(_3516825_37);
+Obj _3518427_37 = PRIM_CDR(_3518426_37);
+Obj more = _3518427_37;
 R[1] = name;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516756_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516826_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516827_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516827_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516757_37);
+coraCall0(co, _3516827_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518352_37= co->res;
+Obj _3518428_37= co->res;
 Obj name = R[1];
-Obj _3518353_37 = makeCons(co->gc, name, _3518352_37);
-Obj _3518354_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518353_37);
-coraReturn(co, _3518354_37);
+Obj _3518429_37 = makeCons(co->gc, name, _3518428_37);
+Obj _3518430_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518429_37);
+coraReturn(co, _3518430_37);
 return;
 }
 }
@@ -886,69 +887,69 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516758_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518322_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518322_37) {
-Obj _3518323_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518324_37 = PRIM_ISCONS(_3518323_37);
-if (True == _3518324_37) {
-Obj _3518325_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518326_37 = PRIM_CAR(_3518325_37);
-Obj _3518327_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518326_37);
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518329_37 = PRIM_CDR(_3518328_37);
-Obj _3518330_37 = PRIM_ISCONS(_3518329_37);
-if (True == _3518330_37) {
-Obj _3518331_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518332_37 = PRIM_CDR(_3518331_37);
-Obj _3518333_37 = PRIM_CAR(_3518332_37);
-Obj pkg = _3518333_37;
-Obj _3518334_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518335_37 = PRIM_CDR(_3518334_37);
-Obj _3518336_37 = PRIM_CDR(_3518335_37);
-Obj _3518337_37 = PRIM_EQ(Nil, _3518336_37);
-if (True == _3518337_37) {
-Obj _3518338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518338_37;
-Obj _3518339_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518340_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518339_37);
-R[1] = _3518340_37;
+Obj _3516828_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518398_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518398_37) {
+Obj _3518399_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518400_37 = PRIM_ISCONS(_3518399_37);
+if (True == _3518400_37) {
+Obj _3518401_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518402_37 = PRIM_CAR(_3518401_37);
+Obj _3518403_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518402_37);
+if (True == _3518403_37) {
+Obj _3518404_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518405_37 = PRIM_CDR(_3518404_37);
+Obj _3518406_37 = PRIM_ISCONS(_3518405_37);
+if (True == _3518406_37) {
+Obj _3518407_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518408_37 = PRIM_CDR(_3518407_37);
+Obj _3518409_37 = PRIM_CAR(_3518408_37);
+Obj pkg = _3518409_37;
+Obj _3518410_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518411_37 = PRIM_CDR(_3518410_37);
+Obj _3518412_37 = PRIM_CDR(_3518411_37);
+Obj _3518413_37 = PRIM_EQ(Nil, _3518412_37);
+if (True == _3518413_37) {
+Obj _3518414_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518414_37;
+Obj _3518415_37 = makeCons(co->gc, pkg, Nil);
+Obj _3518416_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518415_37);
+R[1] = _3518416_37;
 saveCont(co, clofun130, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516828_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516758_37);
+coraCall0(co, _3516828_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518341_37= co->res;
-Obj _3518340_37 = R[1];
-Obj _3518342_37 = makeCons(co->gc, _3518340_37, _3518341_37);
-coraReturn(co, _3518342_37);
+Obj _3518417_37= co->res;
+Obj _3518416_37 = R[1];
+Obj _3518418_37 = makeCons(co->gc, _3518416_37, _3518417_37);
+coraReturn(co, _3518418_37);
 return;
 }
 }
@@ -958,48 +959,48 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516759_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518310_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518310_37) {
-Obj _3518311_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518312_37 = PRIM_ISCONS(_3518311_37);
-if (True == _3518312_37) {
-Obj _3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518314_37 = PRIM_CAR(_3518313_37);
-Obj _3518315_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj symbols = _3518317_37;
-Obj _3518318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518318_37;
-Obj _3518319_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518319_37;
+Obj _3516829_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518386_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518386_37) {
+Obj _3518387_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518388_37 = PRIM_ISCONS(_3518387_37);
+if (True == _3518388_37) {
+Obj _3518389_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518390_37 = PRIM_CAR(_3518389_37);
+Obj _3518391_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518390_37);
+if (True == _3518391_37) {
+Obj _3518392_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518393_37 = PRIM_CDR(_3518392_37);
+Obj symbols = _3518393_37;
+Obj _3518394_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518394_37;
+Obj _3518395_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
+R[1] = _3518395_37;
 saveCont(co, clofun129, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516829_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516829_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516759_37);
+coraCall0(co, _3516829_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518320_37= co->res;
-Obj _3518319_37 = R[1];
-Obj _3518321_37 = makeCons(co->gc, _3518319_37, _3518320_37);
-coraReturn(co, _3518321_37);
+Obj _3518396_37= co->res;
+Obj _3518395_37 = R[1];
+Obj _3518397_37 = makeCons(co->gc, _3518395_37, _3518396_37);
+coraReturn(co, _3518397_37);
 return;
 }
 }
@@ -1009,33 +1010,33 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516760_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518305_37);
-if (True == _3518306_37) {
-Obj _3518307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518307_37;
+Obj _3516830_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3518380_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518380_37) {
+Obj _3518381_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518382_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518381_37);
+if (True == _3518382_37) {
+Obj _3518383_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518383_37;
 saveCont(co, clofun128, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, _3516830_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516760_37);
+coraCall0(co, _3516830_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518308_37= co->res;
-Obj _3518309_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518308_37);
-coraReturn(co, _3518309_37);
+Obj _3518384_37= co->res;
+Obj _3518385_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518384_37);
+coraReturn(co, _3518385_37);
 return;
 }
 }
@@ -1056,73 +1057,73 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516747_37 = R[1];
-Obj _3516748_37 = R[2];
-Obj _3516749_37 = R[3];
-Obj _3516750_37 = R[4];
-Obj _3518265_37 = PRIM_EQ(Nil, _3516747_37);
-if (True == _3518265_37) {
-R[1] = _3516749_37;
-R[2] = _3516750_37;
+Obj _3516817_37 = R[1];
+Obj _3516818_37 = R[2];
+Obj _3516819_37 = R[3];
+Obj _3516820_37 = R[4];
+Obj _3518341_37 = PRIM_EQ(Nil, _3516817_37);
+if (True == _3518341_37) {
+R[1] = _3516819_37;
+R[2] = _3516820_37;
 saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516748_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516818_37);
 return;
 } else {
-Obj _3516752_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516747_37, _3516748_37, _3516749_37, _3516750_37);
-Obj _3518292_37 = PRIM_ISCONS(_3516747_37);
-if (True == _3518292_37) {
-Obj _3518293_37 = PRIM_CAR(_3516747_37);
-Obj _3518294_37 = PRIM_ISCONS(_3518293_37);
-if (True == _3518294_37) {
-Obj _3518295_37 = PRIM_CAR(_3516747_37);
-Obj _3518296_37 = PRIM_CAR(_3518295_37);
-Obj _3518297_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518296_37);
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CAR(_3516747_37);
-Obj _3518299_37 = PRIM_CDR(_3518298_37);
-Obj exp = _3518299_37;
-Obj _3518300_37 = PRIM_CDR(_3516747_37);
-Obj more = _3518300_37;
-Obj _3518301_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518302_37 = makeCons(co->gc, _3518301_37, _3516748_37);
+Obj _3516822_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516817_37, _3516818_37, _3516819_37, _3516820_37);
+Obj _3518368_37 = PRIM_ISCONS(_3516817_37);
+if (True == _3518368_37) {
+Obj _3518369_37 = PRIM_CAR(_3516817_37);
+Obj _3518370_37 = PRIM_ISCONS(_3518369_37);
+if (True == _3518370_37) {
+Obj _3518371_37 = PRIM_CAR(_3516817_37);
+Obj _3518372_37 = PRIM_CAR(_3518371_37);
+Obj _3518373_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518372_37);
+if (True == _3518373_37) {
+Obj _3518374_37 = PRIM_CAR(_3516817_37);
+Obj _3518375_37 = PRIM_CDR(_3518374_37);
+Obj exp = _3518375_37;
+Obj _3518376_37 = PRIM_CDR(_3516817_37);
+Obj more = _3518376_37;
+Obj _3518377_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
+Obj _3518378_37 = makeCons(co->gc, _3518377_37, _3516818_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518302_37, _3516749_37, _3516750_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518378_37, _3516819_37, _3516820_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516752_37);
+coraCall0(co, _3516822_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518267_37= co->res;
-Obj _3516750_37 = R[1];
-Obj _3518266_37 = R[2];
+Obj _3518343_37= co->res;
+Obj _3516820_37 = R[1];
+Obj _3518342_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516750_37, _3518266_37, _3518267_37);
+coraCall2(co, _3516820_37, _3518342_37, _3518343_37);
 return;
 }
 case 2:
 {
-Obj _3518266_37= co->res;
-Obj _3516749_37 = R[1];
-Obj _3516750_37 = R[2];
-R[1] = _3516750_37;
-R[2] = _3518266_37;
+Obj _3518342_37= co->res;
+Obj _3516819_37 = R[1];
+Obj _3516820_37 = R[2];
+R[1] = _3516820_37;
+R[2] = _3518342_37;
 saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516749_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516819_37);
 return;
 }
 }
@@ -1132,39 +1133,39 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516753_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518281_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518281_37) {
-Obj _3518282_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518283_37 = PRIM_ISCONS(_3518282_37);
-if (True == _3518283_37) {
-Obj _3518284_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518285_37 = PRIM_CAR(_3518284_37);
-Obj _3518286_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518285_37);
-if (True == _3518286_37) {
-Obj _3518287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518288_37 = PRIM_CDR(_3518287_37);
-Obj exp = _3518288_37;
-Obj _3518289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518289_37;
-Obj _3518290_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518291_37 = makeCons(co->gc, _3518290_37, closureRef(R[0], 1));
+Obj _3516823_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3518357_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518357_37) {
+Obj _3518358_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518359_37 = PRIM_ISCONS(_3518358_37);
+if (True == _3518359_37) {
+Obj _3518360_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518361_37 = PRIM_CAR(_3518360_37);
+Obj _3518362_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518361_37);
+if (True == _3518362_37) {
+Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518364_37 = PRIM_CDR(_3518363_37);
+Obj exp = _3518364_37;
+Obj _3518365_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518365_37;
+Obj _3518366_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
+Obj _3518367_37 = makeCons(co->gc, _3518366_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518291_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518367_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516753_37);
+coraCall0(co, _3516823_37);
 return;
 }
 }
@@ -1175,24 +1176,24 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518268_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518268_37) {
-Obj _3518269_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518269_37;
-Obj _3518270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518270_37;
-Obj _3518271_37 = makeCons(co->gc, exp, Nil);
-Obj _3518272_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518271_37);
-Obj _3518273_37 = makeCons(co->gc, _3518272_37, Nil);
-Obj _3518274_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518273_37);
-Obj _3518275_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518276_37 = makeCons(co->gc, _3518275_37, Nil);
-Obj _3518277_37 = makeCons(co->gc, _3518274_37, _3518276_37);
-Obj _3518278_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518277_37);
-Obj _3518279_37 = makeCons(co->gc, _3518278_37, closureRef(R[0], 1));
-Obj _3518280_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3518344_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518344_37) {
+Obj _3518345_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj exp = _3518345_37;
+Obj _3518346_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj more = _3518346_37;
+Obj _3518347_37 = makeCons(co->gc, exp, Nil);
+Obj _3518348_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518347_37);
+Obj _3518349_37 = makeCons(co->gc, _3518348_37, Nil);
+Obj _3518350_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518349_37);
+Obj _3518351_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj _3518352_37 = makeCons(co->gc, _3518351_37, Nil);
+Obj _3518353_37 = makeCons(co->gc, _3518350_37, _3518352_37);
+Obj _3518354_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518353_37);
+Obj _3518355_37 = makeCons(co->gc, _3518354_37, closureRef(R[0], 1));
+Obj _3518356_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518279_37, _3518280_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518355_37, _3518356_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1207,37 +1208,37 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516741_37 = R[1];
-Obj _3516742_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516741_37);
-Obj _3518255_37 = PRIM_ISCONS(_3516741_37);
-if (True == _3518255_37) {
-Obj _3518256_37 = PRIM_CAR(_3516741_37);
-Obj _3518257_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518256_37);
-if (True == _3518257_37) {
-Obj _3518258_37 = PRIM_CDR(_3516741_37);
-Obj _3518259_37 = PRIM_ISCONS(_3518258_37);
-if (True == _3518259_37) {
-Obj _3518260_37 = PRIM_CDR(_3516741_37);
-Obj _3518261_37 = PRIM_CAR(_3518260_37);
-Obj _3518262_37 = PRIM_CDR(_3516741_37);
-Obj _3518263_37 = PRIM_CDR(_3518262_37);
-Obj remain = _3518263_37;
+Obj _3516811_37 = R[1];
+Obj _3516812_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516811_37);
+Obj _3518331_37 = PRIM_ISCONS(_3516811_37);
+if (True == _3518331_37) {
+Obj _3518332_37 = PRIM_CAR(_3516811_37);
+Obj _3518333_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518332_37);
+if (True == _3518333_37) {
+Obj _3518334_37 = PRIM_CDR(_3516811_37);
+Obj _3518335_37 = PRIM_ISCONS(_3518334_37);
+if (True == _3518335_37) {
+Obj _3518336_37 = PRIM_CDR(_3516811_37);
+Obj _3518337_37 = PRIM_CAR(_3518336_37);
+Obj _3518338_37 = PRIM_CDR(_3516811_37);
+Obj _3518339_37 = PRIM_CDR(_3518338_37);
+Obj remain = _3518339_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516812_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516812_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3516812_37);
 return;
 }
 }
@@ -1248,25 +1249,25 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516743_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518251_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518251_37) {
-Obj _3518252_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518253_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518252_37);
-if (True == _3518253_37) {
-Obj _3518254_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518254_37;
+Obj _3516813_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
+Obj _3518327_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518327_37) {
+Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518329_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518328_37);
+if (True == _3518329_37) {
+Obj _3518330_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518330_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3516813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516743_37);
+coraCall0(co, _3516813_37);
 return;
 }
 }
@@ -1277,36 +1278,36 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj _3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518242_37) {
-Obj _3518243_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518244_37 = PRIM_ISCONS(_3518243_37);
-if (True == _3518244_37) {
-Obj _3518245_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518246_37 = PRIM_CAR(_3518245_37);
-Obj _3518247_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518246_37);
-if (True == _3518247_37) {
-Obj _3518248_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518249_37 = PRIM_CDR(_3518248_37);
-Obj _3518250_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518250_37;
+Obj _3516814_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
+Obj _3518318_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518318_37) {
+Obj _3518319_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518320_37 = PRIM_ISCONS(_3518319_37);
+if (True == _3518320_37) {
+Obj _3518321_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518322_37 = PRIM_CAR(_3518321_37);
+Obj _3518323_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518322_37);
+if (True == _3518323_37) {
+Obj _3518324_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518325_37 = PRIM_CDR(_3518324_37);
+Obj _3518326_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518326_37;
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516744_37);
+coraCall0(co, _3516814_37);
 return;
 }
 }
@@ -1317,64 +1318,64 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516745_37 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj _3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518224_37) {
-Obj _3518225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518226_37 = PRIM_ISCONS(_3518225_37);
-if (True == _3518226_37) {
-Obj _3518227_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518228_37 = PRIM_CAR(_3518227_37);
-Obj _3518229_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518228_37);
-if (True == _3518229_37) {
-Obj _3518230_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518231_37 = PRIM_CDR(_3518230_37);
-Obj _3518232_37 = PRIM_ISCONS(_3518231_37);
-if (True == _3518232_37) {
-Obj _3518233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518234_37 = PRIM_CDR(_3518233_37);
-Obj _3518235_37 = PRIM_CAR(_3518234_37);
-Obj pkg = _3518235_37;
-Obj _3518236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518237_37 = PRIM_CDR(_3518236_37);
-Obj _3518238_37 = PRIM_CDR(_3518237_37);
-Obj _3518239_37 = PRIM_EQ(Nil, _3518238_37);
-if (True == _3518239_37) {
-Obj _3518240_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518240_37;
+Obj _3516815_37 = makeNative(co->gc, 1, clofun119, 0, 0);
+Obj _3518300_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518300_37) {
+Obj _3518301_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518302_37 = PRIM_ISCONS(_3518301_37);
+if (True == _3518302_37) {
+Obj _3518303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518304_37 = PRIM_CAR(_3518303_37);
+Obj _3518305_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518304_37);
+if (True == _3518305_37) {
+Obj _3518306_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518307_37 = PRIM_CDR(_3518306_37);
+Obj _3518308_37 = PRIM_ISCONS(_3518307_37);
+if (True == _3518308_37) {
+Obj _3518309_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518310_37 = PRIM_CDR(_3518309_37);
+Obj _3518311_37 = PRIM_CAR(_3518310_37);
+Obj pkg = _3518311_37;
+Obj _3518312_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518313_37 = PRIM_CDR(_3518312_37);
+Obj _3518314_37 = PRIM_CDR(_3518313_37);
+Obj _3518315_37 = PRIM_EQ(Nil, _3518314_37);
+if (True == _3518315_37) {
+Obj _3518316_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj remain = _3518316_37;
 R[1] = remain;
 saveCont(co, clofun120, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516745_37);
+coraCall0(co, _3516815_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518241_37= co->res;
+Obj _3518317_37= co->res;
 Obj remain = R[1];
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
@@ -1403,13 +1404,13 @@ Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 7, R);
+saveCont(co, clofun118, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518222_37= co->res;
+Obj _3518298_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1419,33 +1420,36 @@ return;
 }
 case 2:
 {
-Obj _3518221_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
+Obj _3518297_37= co->res;
+Obj _3518295_37 = R[1];
+Obj to = R[2];
+Obj globals = R[3];
+Obj bc = R[4];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun118, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518221_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518295_37, _3518297_37);
 return;
 }
 case 3:
 {
-Obj _3518220_37= co->res;
+Obj _3518295_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj _3518296_37 = PRIM_CAR(bc);
+R[1] = _3518295_37;
+R[2] = to;
+R[3] = globals;
+R[4] = bc;
 saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3518296_37);
 return;
 }
 case 4:
 {
-Obj _3518219_37= co->res;
+Obj _3518294_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1453,12 +1457,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun118, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
 return;
 }
 case 5:
 {
-Obj _3518216_37= co->res;
+Obj _3518293_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1466,12 +1470,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, to), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj _3518215_37= co->res;
+Obj _3518290_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1479,12 +1483,12 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun118, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, to), bc);
 return;
 }
 case 7:
 {
-Obj _3518214_37= co->res;
+Obj _3518289_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
@@ -1492,6 +1496,19 @@ R[1] = to;
 R[2] = globals;
 R[3] = bc;
 saveCont(co, clofun118, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+return;
+}
+case 8:
+{
+Obj _3518288_37= co->res;
+Obj to = R[1];
+Obj globals = R[2];
+Obj bc = R[3];
+R[1] = to;
+R[2] = globals;
+R[3] = bc;
+saveCont(co, clofun118, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
@@ -1515,14 +1532,14 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518217_37 = PRIM_CAR(group);
+Obj _3518291_37 = PRIM_CAR(group);
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518217_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518291_37);
 return;
 }
 case 1:
 {
-Obj _3518218_37= co->res;
+Obj _3518292_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1537,16 +1554,18 @@ case 0:
 Obj to = R[1];
 Obj globals = R[2];
 Obj label = R[3];
+Obj lam = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
-saveCont(co, clofun115, 11, R);
+R[2] = lam;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun115, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518212_37= co->res;
+Obj _3518286_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1554,7 +1573,7 @@ return;
 }
 case 2:
 {
-Obj _3518211_37= co->res;
+Obj _3518285_37= co->res;
 Obj to = R[1];
 R[1] = to;
 saveCont(co, clofun115, 1, R);
@@ -1563,7 +1582,7 @@ return;
 }
 case 3:
 {
-Obj _3518210_37= co->res;
+Obj _3518284_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = to;
@@ -1573,7 +1592,7 @@ return;
 }
 case 4:
 {
-Obj _3518209_37= co->res;
+Obj _3518283_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
@@ -1584,89 +1603,150 @@ return;
 }
 case 5:
 {
-Obj _3518208_37= co->res;
+Obj _3518282_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
 saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj _3518200_37= co->res;
-Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
+Obj _3518281_37= co->res;
+Obj label = R[1];
+Obj to = R[2];
 R[1] = label;
 R[2] = to;
 saveCont(co, clofun115, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, to), MAKE_NUMBER(0), globals);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518281_37);
 return;
 }
 case 7:
 {
-Obj _3518199_37= co->res;
-Obj globals = R[1];
+Obj _3518280_37= co->res;
+Obj lam = R[1];
 Obj label = R[2];
 Obj to = R[3];
-R[1] = globals;
-R[2] = label;
-R[3] = to;
+R[1] = label;
+R[2] = to;
 saveCont(co, clofun115, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), lam);
 return;
 }
 case 8:
 {
-Obj _3518198_37= co->res;
-Obj globals = R[1];
+Obj _3518279_37= co->res;
+Obj lam = R[1];
 Obj label = R[2];
 Obj to = R[3];
-R[1] = globals;
+R[1] = lam;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518198_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj _3518197_37= co->res;
-Obj globals = R[1];
+Obj _3518278_37= co->res;
+Obj lam = R[1];
 Obj label = R[2];
 Obj to = R[3];
-R[1] = globals;
+R[1] = lam;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun115, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj _3518196_37= co->res;
+Obj _3518270_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = globals;
+Obj lam = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = lam;
 R[2] = label;
 R[3] = to;
 saveCont(co, clofun115, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, to), MAKE_NUMBER(0), globals);
 return;
 }
 case 11:
 {
-Obj _3518195_37= co->res;
+Obj _3518269_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj to = R[3];
+Obj lam = R[2];
+Obj label = R[3];
+Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = to;
+R[2] = lam;
+R[3] = label;
+R[4] = to;
 saveCont(co, clofun115, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+return;
+}
+case 12:
+{
+Obj _3518268_37= co->res;
+Obj globals = R[1];
+Obj lam = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = globals;
+R[2] = lam;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun115, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518268_37);
+return;
+}
+case 13:
+{
+Obj _3518267_37= co->res;
+Obj globals = R[1];
+Obj lam = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = globals;
+R[2] = lam;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun115, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+return;
+}
+case 14:
+{
+Obj _3518266_37= co->res;
+Obj globals = R[1];
+Obj lam = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = globals;
+R[2] = lam;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun115, 13, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+return;
+}
+case 15:
+{
+Obj _3518265_37= co->res;
+Obj globals = R[1];
+Obj lam = R[2];
+Obj label = R[3];
+Obj to = R[4];
+R[1] = globals;
+R[2] = lam;
+R[3] = label;
+R[4] = to;
+saveCont(co, clofun115, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
@@ -1687,15 +1767,15 @@ return;
 }
 case 1:
 {
-Obj _3518206_37= co->res;
+Obj _3518276_37= co->res;
 Obj acc = R[1];
-Obj _3518207_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518207_37);
+Obj _3518277_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518277_37);
 return;
 }
 case 2:
 {
-Obj _3518205_37= co->res;
+Obj _3518275_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun114, 1, R);
@@ -1704,16 +1784,16 @@ return;
 }
 case 3:
 {
-Obj _3518204_37= co->res;
+Obj _3518274_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518204_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518274_37);
 return;
 }
 case 4:
 {
-Obj _3518203_37= co->res;
+Obj _3518273_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -1723,7 +1803,7 @@ return;
 }
 case 5:
 {
-Obj _3518202_37= co->res;
+Obj _3518272_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
@@ -1734,7 +1814,7 @@ return;
 }
 case 6:
 {
-Obj _3518201_37= co->res;
+Obj _3518271_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
@@ -1753,8 +1833,8 @@ case 0:
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518173_37 = PRIM_CAR(group);
-Obj label = _3518173_37;
+Obj _3518243_37 = PRIM_CAR(group);
+Obj label = _3518243_37;
 R[1] = globals;
 R[2] = label;
 R[3] = to;
@@ -1764,7 +1844,7 @@ return;
 }
 case 1:
 {
-Obj _3518193_37= co->res;
+Obj _3518263_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
@@ -1772,7 +1852,7 @@ return;
 }
 case 2:
 {
-Obj _3518192_37= co->res;
+Obj _3518262_37= co->res;
 Obj to = R[1];
 R[1] = to;
 saveCont(co, clofun113, 1, R);
@@ -1781,19 +1861,19 @@ return;
 }
 case 3:
 {
-Obj _3518191_37= co->res;
+Obj _3518261_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
 R[1] = to;
 saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518191_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518261_37);
 return;
 }
 case 4:
 {
-Obj _3518183_37= co->res;
+Obj _3518253_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1808,7 +1888,7 @@ return;
 }
 case 5:
 {
-Obj _3518182_37= co->res;
+Obj _3518252_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
@@ -1823,7 +1903,7 @@ return;
 }
 case 6:
 {
-Obj _3518181_37= co->res;
+Obj _3518251_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1841,7 +1921,7 @@ return;
 }
 case 7:
 {
-Obj _3518180_37= co->res;
+Obj _3518250_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1861,7 +1941,7 @@ return;
 }
 case 8:
 {
-Obj _3518179_37= co->res;
+Obj _3518249_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1880,7 +1960,7 @@ return;
 }
 case 9:
 {
-Obj _3518178_37= co->res;
+Obj _3518248_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1899,7 +1979,7 @@ return;
 }
 case 10:
 {
-Obj _3518177_37= co->res;
+Obj _3518247_37= co->res;
 Obj params = R[1];
 Obj first_45stmt = R[2];
 Obj globals = R[3];
@@ -1918,13 +1998,13 @@ return;
 }
 case 11:
 {
-Obj _3518176_37= co->res;
+Obj _3518246_37= co->res;
 Obj params = R[1];
 Obj globals = R[2];
 Obj label = R[3];
 Obj lam = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518176_37;
+Obj first_45stmt = _3518246_37;
 R[1] = params;
 R[2] = first_45stmt;
 R[3] = globals;
@@ -1937,12 +2017,12 @@ return;
 }
 case 12:
 {
-Obj _3518175_37= co->res;
+Obj _3518245_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj lam = R[3];
 Obj to = R[4];
-Obj params = _3518175_37;
+Obj params = _3518245_37;
 R[1] = params;
 R[2] = globals;
 R[3] = label;
@@ -1954,11 +2034,11 @@ return;
 }
 case 13:
 {
-Obj _3518174_37= co->res;
+Obj _3518244_37= co->res;
 Obj globals = R[1];
 Obj label = R[2];
 Obj to = R[3];
-Obj lam = _3518174_37;
+Obj lam = _3518244_37;
 R[1] = globals;
 R[2] = label;
 R[3] = lam;
@@ -1984,15 +2064,15 @@ return;
 }
 case 1:
 {
-Obj _3518189_37= co->res;
+Obj _3518259_37= co->res;
 Obj acc = R[1];
-Obj _3518190_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518190_37);
+Obj _3518260_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518260_37);
 return;
 }
 case 2:
 {
-Obj _3518188_37= co->res;
+Obj _3518258_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun112, 1, R);
@@ -2001,18 +2081,18 @@ return;
 }
 case 3:
 {
-Obj _3518187_37= co->res;
+Obj _3518257_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
 saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518187_37, closureRef(R[0], 3), cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518257_37, closureRef(R[0], 3), cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518186_37= co->res;
+Obj _3518256_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2023,7 +2103,7 @@ return;
 }
 case 5:
 {
-Obj _3518185_37= co->res;
+Obj _3518255_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2034,7 +2114,7 @@ return;
 }
 case 6:
 {
-Obj _3518184_37= co->res;
+Obj _3518254_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
@@ -2050,23 +2130,23 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = R[1];
-Obj _3516738_37 = R[2];
-Obj _3518167_37 = PRIM_EQ(Nil, _3516738_37);
-if (True == _3518167_37) {
+Obj _3516807_37 = R[1];
+Obj _3516808_37 = R[2];
+Obj _3518237_37 = PRIM_EQ(Nil, _3516808_37);
+if (True == _3518237_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518168_37 = PRIM_ISCONS(_3516738_37);
-if (True == _3518168_37) {
-Obj _3518169_37 = PRIM_CAR(_3516738_37);
-Obj x = _3518169_37;
-Obj _3518170_37 = PRIM_CDR(_3516738_37);
-Obj y = _3518170_37;
-R[1] = _3516737_37;
+Obj _3518238_37 = PRIM_ISCONS(_3516808_37);
+if (True == _3518238_37) {
+Obj _3518239_37 = PRIM_CAR(_3516808_37);
+Obj x = _3518239_37;
+Obj _3518240_37 = PRIM_CDR(_3516808_37);
+Obj y = _3518240_37;
+R[1] = _3516807_37;
 R[2] = y;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, _3516737_37, x);
+coraCall1(co, _3516807_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -2077,11 +2157,11 @@ return;
 }
 case 1:
 {
-Obj _3518171_37= co->res;
-Obj _3516737_37 = R[1];
+Obj _3518241_37= co->res;
+Obj _3516807_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516737_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516807_37, y);
 return;
 }
 }
@@ -2100,38 +2180,38 @@ return;
 }
 case 1:
 {
-Obj _3518165_37= co->res;
+Obj _3518235_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518165_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518235_37);
 return;
 }
 case 2:
 {
-Obj _3518164_37= co->res;
+Obj _3518234_37= co->res;
 saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518164_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518234_37);
 return;
 }
 case 3:
 {
-Obj _3518163_37= co->res;
+Obj _3518233_37= co->res;
 saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518163_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518233_37);
 return;
 }
 case 4:
 {
-Obj _3518162_37= co->res;
+Obj _3518232_37= co->res;
 saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518162_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518232_37);
 return;
 }
 case 5:
 {
-Obj _3518161_37= co->res;
+Obj _3518231_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun110, 4, R);
-coraCall1(co, _3518161_37, exp);
+coraCall1(co, _3518231_37, exp);
 return;
 }
 }
@@ -2149,18 +2229,18 @@ return;
 }
 case 1:
 {
-Obj _3518159_37= co->res;
+Obj _3518229_37= co->res;
 Obj obj = R[1];
-Obj fns = _3518159_37;
+Obj fns = _3518229_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
 return;
 }
 case 2:
 {
-Obj _3518158_37= co->res;
+Obj _3518228_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518158_37;
+Obj obj = _3518228_37;
 R[1] = obj;
 saveCont(co, clofun109, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
@@ -2173,23 +2253,23 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = R[1];
-Obj _3516734_37 = R[2];
-Obj _3518151_37 = PRIM_EQ(Nil, _3516734_37);
-if (True == _3518151_37) {
-coraReturn(co, _3516733_37);
+Obj _3516803_37 = R[1];
+Obj _3516804_37 = R[2];
+Obj _3518221_37 = PRIM_EQ(Nil, _3516804_37);
+if (True == _3518221_37) {
+coraReturn(co, _3516803_37);
 return;
 } else {
-Obj _3518152_37 = PRIM_ISCONS(_3516734_37);
-if (True == _3518152_37) {
-Obj _3518153_37 = PRIM_CAR(_3516734_37);
-Obj hd = _3518153_37;
-Obj _3518154_37 = PRIM_CDR(_3516734_37);
-Obj more = _3518154_37;
-Obj _3518155_37 = makeCons(co->gc, _3516733_37, Nil);
-Obj _3518156_37 = makeCons(co->gc, hd, _3518155_37);
+Obj _3518222_37 = PRIM_ISCONS(_3516804_37);
+if (True == _3518222_37) {
+Obj _3518223_37 = PRIM_CAR(_3516804_37);
+Obj hd = _3518223_37;
+Obj _3518224_37 = PRIM_CDR(_3516804_37);
+Obj more = _3518224_37;
+Obj _3518225_37 = makeCons(co->gc, _3516803_37, Nil);
+Obj _3518226_37 = makeCons(co->gc, hd, _3518225_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518156_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518226_37, more);
 return;
 } else {
 co->ctx.sp = R;
@@ -2213,7 +2293,7 @@ return;
 }
 case 1:
 {
-Obj _3518149_37= co->res;
+Obj _3518219_37= co->res;
 Obj v = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
@@ -2221,9 +2301,9 @@ return;
 }
 case 2:
 {
-Obj _3518148_37= co->res;
+Obj _3518218_37= co->res;
 Obj v = R[1];
-Obj e2 = _3518148_37;
+Obj e2 = _3518218_37;
 R[1] = v;
 saveCont(co, clofun107, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
@@ -2231,9 +2311,9 @@ return;
 }
 case 3:
 {
-Obj _3518147_37= co->res;
+Obj _3518217_37= co->res;
 Obj v = R[1];
-Obj e1 = _3518147_37;
+Obj e1 = _3518217_37;
 R[1] = v;
 saveCont(co, clofun107, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
@@ -2241,7 +2321,7 @@ return;
 }
 case 4:
 {
-Obj _3518146_37= co->res;
+Obj _3518216_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = v;
@@ -2251,7 +2331,7 @@ return;
 }
 case 5:
 {
-Obj _3518145_37= co->res;
+Obj _3518215_37= co->res;
 Obj exp = R[1];
 Obj v = R[2];
 R[1] = exp;
@@ -2262,9 +2342,9 @@ return;
 }
 case 6:
 {
-Obj _3518144_37= co->res;
+Obj _3518214_37= co->res;
 Obj exp = R[1];
-Obj v = _3518144_37;
+Obj v = _3518214_37;
 R[1] = exp;
 R[2] = v;
 saveCont(co, clofun107, 5, R);
@@ -2337,7 +2417,7 @@ return;
 }
 case 1:
 {
-Obj _3518138_37= co->res;
+Obj _3518208_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
@@ -2345,7 +2425,7 @@ return;
 }
 case 2:
 {
-Obj _3518137_37= co->res;
+Obj _3518207_37= co->res;
 Obj w = R[1];
 R[1] = w;
 saveCont(co, clofun102, 1, R);
@@ -2354,7 +2434,7 @@ return;
 }
 case 3:
 {
-Obj _3518136_37= co->res;
+Obj _3518206_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
@@ -2379,7 +2459,7 @@ return;
 }
 case 1:
 {
-Obj _3518134_37= co->res;
+Obj _3518204_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
@@ -2393,136 +2473,136 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
-Obj _3516731_37 = R[5];
-Obj _3516732_37 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj _3518112_37 = PRIM_ISCONS(_3516731_37);
-if (True == _3518112_37) {
-Obj _3518113_37 = PRIM_CAR(_3516731_37);
-Obj _3518114_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518113_37);
-if (True == _3518114_37) {
-Obj _3518115_37 = PRIM_CDR(_3516731_37);
-Obj _3518116_37 = PRIM_ISCONS(_3518115_37);
-if (True == _3518116_37) {
-Obj _3518117_37 = PRIM_CDR(_3516731_37);
-Obj _3518118_37 = PRIM_CAR(_3518117_37);
-Obj var = _3518118_37;
-Obj _3518119_37 = PRIM_CDR(_3516731_37);
-Obj _3518120_37 = PRIM_CDR(_3518119_37);
-Obj _3518121_37 = PRIM_ISCONS(_3518120_37);
-if (True == _3518121_37) {
-Obj _3518122_37 = PRIM_CDR(_3516731_37);
-Obj _3518123_37 = PRIM_CDR(_3518122_37);
-Obj _3518124_37 = PRIM_CAR(_3518123_37);
-Obj body = _3518124_37;
-Obj _3518125_37 = PRIM_CDR(_3516731_37);
-Obj _3518126_37 = PRIM_CDR(_3518125_37);
-Obj _3518127_37 = PRIM_CDR(_3518126_37);
-Obj fvs = _3518127_37;
+Obj _3516797_37 = R[1];
+Obj _3516798_37 = R[2];
+Obj _3516799_37 = R[3];
+Obj _3516800_37 = R[4];
+Obj _3516801_37 = R[5];
+Obj _3516802_37 = makeNative(co->gc, 1, clofun99, 0, 0);
+Obj _3518182_37 = PRIM_ISCONS(_3516801_37);
+if (True == _3518182_37) {
+Obj _3518183_37 = PRIM_CAR(_3516801_37);
+Obj _3518184_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518183_37);
+if (True == _3518184_37) {
+Obj _3518185_37 = PRIM_CDR(_3516801_37);
+Obj _3518186_37 = PRIM_ISCONS(_3518185_37);
+if (True == _3518186_37) {
+Obj _3518187_37 = PRIM_CDR(_3516801_37);
+Obj _3518188_37 = PRIM_CAR(_3518187_37);
+Obj var = _3518188_37;
+Obj _3518189_37 = PRIM_CDR(_3516801_37);
+Obj _3518190_37 = PRIM_CDR(_3518189_37);
+Obj _3518191_37 = PRIM_ISCONS(_3518190_37);
+if (True == _3518191_37) {
+Obj _3518192_37 = PRIM_CDR(_3516801_37);
+Obj _3518193_37 = PRIM_CDR(_3518192_37);
+Obj _3518194_37 = PRIM_CAR(_3518193_37);
+Obj body = _3518194_37;
+Obj _3518195_37 = PRIM_CDR(_3516801_37);
+Obj _3518196_37 = PRIM_CDR(_3518195_37);
+Obj _3518197_37 = PRIM_CDR(_3518196_37);
+Obj fvs = _3518197_37;
 R[1] = var;
 R[2] = fvs;
-R[3] = _3516727_37;
-R[4] = _3516728_37;
-R[5] = _3516729_37;
-R[6] = _3516730_37;
+R[3] = _3516797_37;
+R[4] = _3516798_37;
+R[5] = _3516799_37;
+R[6] = _3516800_37;
 R[7] = body;
 saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516800_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516802_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516802_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516802_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3516802_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518132_37= co->res;
-Obj _3516727_37 = R[1];
-Obj _3516728_37 = R[2];
-Obj _3516729_37 = R[3];
-Obj _3516730_37 = R[4];
+Obj _3518202_37= co->res;
+Obj _3516797_37 = R[1];
+Obj _3516798_37 = R[2];
+Obj _3516799_37 = R[3];
+Obj _3516800_37 = R[4];
 Obj body = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, body};
+Obj __args[5] = {_3516797_37, _3516798_37, _3516799_37, _3516800_37, body};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518131_37= co->res;
+Obj _3518201_37= co->res;
 Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
+Obj _3516797_37 = R[2];
+Obj _3516798_37 = R[3];
+Obj _3516799_37 = R[4];
+Obj _3516800_37 = R[5];
 Obj body = R[6];
-R[1] = _3516727_37;
-R[2] = _3516728_37;
-R[3] = _3516729_37;
-R[4] = _3516730_37;
+R[1] = _3516797_37;
+R[2] = _3516798_37;
+R[3] = _3516799_37;
+R[4] = _3516800_37;
 R[5] = body;
 saveCont(co, clofun100, 1, R);
-Obj __args[5] = {_3516727_37, _3516728_37, _3516729_37, _3516730_37, fvs};
+Obj __args[5] = {_3516797_37, _3516798_37, _3516799_37, _3516800_37, fvs};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518130_37= co->res;
+Obj _3518200_37= co->res;
 Obj fvs = R[1];
-Obj _3516727_37 = R[2];
-Obj _3516728_37 = R[3];
-Obj _3516729_37 = R[4];
-Obj _3516730_37 = R[5];
+Obj _3516797_37 = R[2];
+Obj _3516798_37 = R[3];
+Obj _3516799_37 = R[4];
+Obj _3516800_37 = R[5];
 Obj body = R[6];
 R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
+R[2] = _3516797_37;
+R[3] = _3516798_37;
+R[4] = _3516799_37;
+R[5] = _3516800_37;
 R[6] = body;
 saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516730_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516800_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518128_37= co->res;
+Obj _3518198_37= co->res;
 Obj var = R[1];
 Obj fvs = R[2];
-Obj _3516727_37 = R[3];
-Obj _3516728_37 = R[4];
-Obj _3516729_37 = R[5];
-Obj _3516730_37 = R[6];
+Obj _3516797_37 = R[3];
+Obj _3516798_37 = R[4];
+Obj _3516799_37 = R[5];
+Obj _3516800_37 = R[6];
 Obj body = R[7];
-Obj _3518129_37 = PRIM_CAR(var);
+Obj _3518199_37 = PRIM_CAR(var);
 R[1] = fvs;
-R[2] = _3516727_37;
-R[3] = _3516728_37;
-R[4] = _3516729_37;
-R[5] = _3516730_37;
+R[2] = _3516797_37;
+R[3] = _3516798_37;
+R[4] = _3516799_37;
+R[5] = _3516800_37;
 R[6] = body;
 saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516730_37, _3518129_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516800_37, _3518199_37);
 return;
 }
 }
@@ -2548,9 +2628,9 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518098_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518098_37;
-Obj _3518109_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3518168_37 = primGenSym(co);
+Obj generate_45inst_45list_45h = _3518168_37;
+Obj _3518179_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
 R[1] = l;
 saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
@@ -2558,10 +2638,10 @@ return;
 }
 case 1:
 {
-Obj _3518110_37= co->res;
+Obj _3518180_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518110_37, l);
+coraCall1(co, _3518180_37, l);
 return;
 }
 }
@@ -2572,17 +2652,17 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518099_37 = PRIM_EQ(Nil, x);
-if (True == _3518099_37) {
+Obj _3518169_37 = PRIM_EQ(Nil, x);
+if (True == _3518169_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518100_37 = PRIM_ISCONS(x);
-if (True == _3518100_37) {
-Obj _3518101_37 = PRIM_CAR(x);
-Obj a = _3518101_37;
-Obj _3518102_37 = PRIM_CDR(x);
-Obj b = _3518102_37;
+Obj _3518170_37 = PRIM_ISCONS(x);
+if (True == _3518170_37) {
+Obj _3518171_37 = PRIM_CAR(x);
+Obj a = _3518171_37;
+Obj _3518172_37 = PRIM_CDR(x);
+Obj b = _3518172_37;
 R[1] = b;
 saveCont(co, clofun97, 5, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
@@ -2597,15 +2677,15 @@ return;
 }
 case 1:
 {
-Obj _3518107_37= co->res;
+Obj _3518177_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518107_37, b);
+coraCall1(co, _3518177_37, b);
 return;
 }
 case 2:
 {
-Obj _3518106_37= co->res;
+Obj _3518176_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun97, 1, R);
@@ -2614,18 +2694,18 @@ return;
 }
 case 3:
 {
-Obj _3518108_37= co->res;
+Obj _3518178_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518108_37, b);
+coraCall1(co, _3518178_37, b);
 return;
 }
 case 4:
 {
-Obj _3518104_37= co->res;
+Obj _3518174_37= co->res;
 Obj b = R[1];
-Obj _3518105_37 = primNot(_3518104_37);
-if (True == _3518105_37) {
+Obj _3518175_37 = primNot(_3518174_37);
+if (True == _3518175_37) {
 R[1] = b;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
@@ -2640,7 +2720,7 @@ return;
 }
 case 5:
 {
-Obj _3518103_37= co->res;
+Obj _3518173_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun97, 4, R);
@@ -2659,9 +2739,9 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517811_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517811_37;
-Obj _3518095_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3517881_37 = primGenSym(co);
+Obj generate_45inst_45h = _3517881_37;
+Obj _3518165_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
 R[1] = x1;
 R[2] = env1;
 saveCont(co, clofun96, 1, R);
@@ -2670,11 +2750,11 @@ return;
 }
 case 1:
 {
-Obj _3518096_37= co->res;
+Obj _3518166_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518096_37, x1, env1);
+coraCall2(co, _3518166_37, x1, env1);
 return;
 }
 }
@@ -2686,71 +2766,71 @@ case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517812_37 = primIsSymbol(x2);
-if (True == _3517812_37) {
+Obj _3517882_37 = primIsSymbol(x2);
+if (True == _3517882_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
 return;
 } else {
-Obj _3516713_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518082_37 = PRIM_ISCONS(x2);
-if (True == _3518082_37) {
-Obj _3518083_37 = PRIM_CAR(x2);
-Obj _3518084_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518083_37);
-if (True == _3518084_37) {
-Obj _3518085_37 = PRIM_CDR(x2);
-Obj _3518086_37 = PRIM_ISCONS(_3518085_37);
-if (True == _3518086_37) {
-Obj _3518087_37 = PRIM_CDR(x2);
-Obj _3518088_37 = PRIM_CAR(_3518087_37);
-Obj x = _3518088_37;
-Obj _3518089_37 = PRIM_CDR(x2);
-Obj _3518090_37 = PRIM_CDR(_3518089_37);
-Obj _3518091_37 = PRIM_EQ(Nil, _3518090_37);
-if (True == _3518091_37) {
+Obj _3516783_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3518152_37 = PRIM_ISCONS(x2);
+if (True == _3518152_37) {
+Obj _3518153_37 = PRIM_CAR(x2);
+Obj _3518154_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518153_37);
+if (True == _3518154_37) {
+Obj _3518155_37 = PRIM_CDR(x2);
+Obj _3518156_37 = PRIM_ISCONS(_3518155_37);
+if (True == _3518156_37) {
+Obj _3518157_37 = PRIM_CDR(x2);
+Obj _3518158_37 = PRIM_CAR(_3518157_37);
+Obj x = _3518158_37;
+Obj _3518159_37 = PRIM_CDR(x2);
+Obj _3518160_37 = PRIM_CDR(_3518159_37);
+Obj _3518161_37 = PRIM_EQ(Nil, _3518160_37);
+if (True == _3518161_37) {
 R[1] = x;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516713_37);
+coraCall0(co, _3516783_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518094_37= co->res;
+Obj _3518164_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518093_37= co->res;
+Obj _3518163_37= co->res;
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518093_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518163_37);
 return;
 }
 case 3:
 {
-Obj _3518092_37= co->res;
+Obj _3518162_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
@@ -2763,57 +2843,57 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516714_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518070_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518070_37) {
-Obj _3518071_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518072_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518071_37);
-if (True == _3518072_37) {
-Obj _3518073_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518074_37 = PRIM_ISCONS(_3518073_37);
-if (True == _3518074_37) {
-Obj _3518075_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518076_37 = PRIM_CAR(_3518075_37);
-Obj idx = _3518076_37;
-Obj _3518077_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518078_37 = PRIM_CDR(_3518077_37);
-Obj _3518079_37 = PRIM_EQ(Nil, _3518078_37);
-if (True == _3518079_37) {
+Obj _3516784_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3518140_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3518140_37) {
+Obj _3518141_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3518142_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518141_37);
+if (True == _3518142_37) {
+Obj _3518143_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518144_37 = PRIM_ISCONS(_3518143_37);
+if (True == _3518144_37) {
+Obj _3518145_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518146_37 = PRIM_CAR(_3518145_37);
+Obj idx = _3518146_37;
+Obj _3518147_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3518148_37 = PRIM_CDR(_3518147_37);
+Obj _3518149_37 = PRIM_EQ(Nil, _3518148_37);
+if (True == _3518149_37) {
 R[1] = idx;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3516784_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518081_37= co->res;
+Obj _3518151_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518080_37= co->res;
+Obj _3518150_37= co->res;
 Obj idx = R[1];
 saveCont(co, clofun94, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
@@ -2826,24 +2906,24 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516715_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518046_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518046_37) {
-Obj _3518047_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518048_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518047_37);
-if (True == _3518048_37) {
-Obj _3518049_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518050_37 = PRIM_ISCONS(_3518049_37);
-if (True == _3518050_37) {
-Obj _3518051_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518052_37 = PRIM_CAR(_3518051_37);
-Obj x = _3518052_37;
-Obj _3518053_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518054_37 = PRIM_CDR(_3518053_37);
-Obj _3518055_37 = PRIM_EQ(Nil, _3518054_37);
-if (True == _3518055_37) {
-Obj _3518056_37 = primIsSymbol(x);
-if (True == _3518056_37) {
+Obj _3516785_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518116_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3518116_37) {
+Obj _3518117_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3518118_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518117_37);
+if (True == _3518118_37) {
+Obj _3518119_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518120_37 = PRIM_ISCONS(_3518119_37);
+if (True == _3518120_37) {
+Obj _3518121_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518122_37 = PRIM_CAR(_3518121_37);
+Obj x = _3518122_37;
+Obj _3518123_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518124_37 = PRIM_CDR(_3518123_37);
+Obj _3518125_37 = PRIM_EQ(Nil, _3518124_37);
+if (True == _3518125_37) {
+Obj _3518126_37 = primIsSymbol(x);
+if (True == _3518126_37) {
 R[1] = x;
 saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
@@ -2856,42 +2936,42 @@ return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516715_37);
+coraCall0(co, _3516785_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518059_37= co->res;
+Obj _3518129_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518058_37= co->res;
+Obj _3518128_37= co->res;
 saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518058_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518128_37);
 return;
 }
 case 3:
 {
-Obj _3518057_37= co->res;
+Obj _3518127_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
@@ -2899,14 +2979,14 @@ return;
 }
 case 4:
 {
-Obj _3518062_37= co->res;
+Obj _3518132_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518061_37= co->res;
+Obj _3518131_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
@@ -2914,21 +2994,21 @@ return;
 }
 case 6:
 {
-Obj _3518066_37= co->res;
+Obj _3518136_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518065_37= co->res;
+Obj _3518135_37= co->res;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518065_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518135_37);
 return;
 }
 case 8:
 {
-Obj _3518064_37= co->res;
+Obj _3518134_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun93, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
@@ -2936,35 +3016,35 @@ return;
 }
 case 9:
 {
-Obj _3518060_37= co->res;
+Obj _3518130_37= co->res;
 Obj x = R[1];
-if (True == _3518060_37) {
+if (True == _3518130_37) {
 R[1] = x;
 saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518063_37 = primIsString(x);
-if (True == _3518063_37) {
+Obj _3518133_37 = primIsString(x);
+if (True == _3518133_37) {
 R[1] = x;
 saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518067_37 = PRIM_EQ(x, Nil);
-if (True == _3518067_37) {
+Obj _3518137_37 = PRIM_EQ(x, Nil);
+if (True == _3518137_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518068_37 = PRIM_EQ(x, True);
-if (True == _3518068_37) {
+Obj _3518138_37 = PRIM_EQ(x, True);
+if (True == _3518138_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518069_37 = PRIM_EQ(x, False);
-if (True == _3518069_37) {
+Obj _3518139_37 = PRIM_EQ(x, False);
+if (True == _3518139_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -2985,42 +3065,42 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516716_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518011_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518011_37) {
-Obj _3518012_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518013_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518012_37);
-if (True == _3518013_37) {
-Obj _3518014_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518015_37 = PRIM_ISCONS(_3518014_37);
-if (True == _3518015_37) {
-Obj _3518016_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518017_37 = PRIM_CAR(_3518016_37);
-Obj a = _3518017_37;
-Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518019_37 = PRIM_CDR(_3518018_37);
-Obj _3518020_37 = PRIM_ISCONS(_3518019_37);
-if (True == _3518020_37) {
-Obj _3518021_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518022_37 = PRIM_CDR(_3518021_37);
-Obj _3518023_37 = PRIM_CAR(_3518022_37);
-Obj b = _3518023_37;
-Obj _3518024_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518025_37 = PRIM_CDR(_3518024_37);
-Obj _3518026_37 = PRIM_CDR(_3518025_37);
-Obj _3518027_37 = PRIM_ISCONS(_3518026_37);
-if (True == _3518027_37) {
-Obj _3518028_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518029_37 = PRIM_CDR(_3518028_37);
-Obj _3518030_37 = PRIM_CDR(_3518029_37);
-Obj _3518031_37 = PRIM_CAR(_3518030_37);
-Obj c = _3518031_37;
-Obj _3518032_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518033_37 = PRIM_CDR(_3518032_37);
-Obj _3518034_37 = PRIM_CDR(_3518033_37);
-Obj _3518035_37 = PRIM_CDR(_3518034_37);
-Obj _3518036_37 = PRIM_EQ(Nil, _3518035_37);
-if (True == _3518036_37) {
+Obj _3516786_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518081_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518081_37) {
+Obj _3518082_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518083_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518082_37);
+if (True == _3518083_37) {
+Obj _3518084_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518085_37 = PRIM_ISCONS(_3518084_37);
+if (True == _3518085_37) {
+Obj _3518086_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518087_37 = PRIM_CAR(_3518086_37);
+Obj a = _3518087_37;
+Obj _3518088_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518089_37 = PRIM_CDR(_3518088_37);
+Obj _3518090_37 = PRIM_ISCONS(_3518089_37);
+if (True == _3518090_37) {
+Obj _3518091_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518092_37 = PRIM_CDR(_3518091_37);
+Obj _3518093_37 = PRIM_CAR(_3518092_37);
+Obj b = _3518093_37;
+Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518095_37 = PRIM_CDR(_3518094_37);
+Obj _3518096_37 = PRIM_CDR(_3518095_37);
+Obj _3518097_37 = PRIM_ISCONS(_3518096_37);
+if (True == _3518097_37) {
+Obj _3518098_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518099_37 = PRIM_CDR(_3518098_37);
+Obj _3518100_37 = PRIM_CDR(_3518099_37);
+Obj _3518101_37 = PRIM_CAR(_3518100_37);
+Obj c = _3518101_37;
+Obj _3518102_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518103_37 = PRIM_CDR(_3518102_37);
+Obj _3518104_37 = PRIM_CDR(_3518103_37);
+Obj _3518105_37 = PRIM_CDR(_3518104_37);
+Obj _3518106_37 = PRIM_EQ(Nil, _3518105_37);
+if (True == _3518106_37) {
 R[1] = b;
 R[2] = a;
 R[3] = c;
@@ -3029,48 +3109,48 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0],
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516716_37);
+coraCall0(co, _3516786_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518044_37= co->res;
+Obj _3518114_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
-Obj _3518045_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3518115_37 = makeCons(co->gc, a, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518044_37, c, _3518045_37);
+coraCall2(co, _3518114_37, c, _3518115_37);
 return;
 }
 case 2:
 {
-Obj _3518043_37= co->res;
+Obj _3518113_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
@@ -3081,7 +3161,7 @@ return;
 }
 case 3:
 {
-Obj _3518042_37= co->res;
+Obj _3518112_37= co->res;
 Obj a = R[1];
 Obj c = R[2];
 R[1] = a;
@@ -3092,19 +3172,19 @@ return;
 }
 case 4:
 {
-Obj _3518041_37= co->res;
+Obj _3518111_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
 R[1] = a;
 R[2] = c;
 saveCont(co, clofun92, 3, R);
-coraCall2(co, _3518041_37, b, closureRef(R[0], 5));
+coraCall2(co, _3518111_37, b, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518040_37= co->res;
+Obj _3518110_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3117,7 +3197,7 @@ return;
 }
 case 6:
 {
-Obj _3518039_37= co->res;
+Obj _3518109_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3130,7 +3210,7 @@ return;
 }
 case 7:
 {
-Obj _3518038_37= co->res;
+Obj _3518108_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3143,7 +3223,7 @@ return;
 }
 case 8:
 {
-Obj _3518037_37= co->res;
+Obj _3518107_37= co->res;
 Obj b = R[1];
 Obj a = R[2];
 Obj c = R[3];
@@ -3161,31 +3241,31 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516717_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517981_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517981_37) {
-Obj _3517982_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517983_37 = PRIM_ISCONS(_3517982_37);
-if (True == _3517983_37) {
-Obj _3517984_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517985_37 = PRIM_CAR(_3517984_37);
-Obj _3517986_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517985_37);
-if (True == _3517986_37) {
-Obj _3517987_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517988_37 = PRIM_CDR(_3517987_37);
-Obj _3517989_37 = PRIM_ISCONS(_3517988_37);
-if (True == _3517989_37) {
-Obj _3517990_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517991_37 = PRIM_CDR(_3517990_37);
-Obj _3517992_37 = PRIM_CAR(_3517991_37);
-Obj f = _3517992_37;
-Obj _3517993_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517994_37 = PRIM_CDR(_3517993_37);
-Obj _3517995_37 = PRIM_CDR(_3517994_37);
-Obj _3517996_37 = PRIM_EQ(Nil, _3517995_37);
-if (True == _3517996_37) {
-Obj _3517997_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3517997_37;
+Obj _3516787_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518051_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518051_37) {
+Obj _3518052_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518053_37 = PRIM_ISCONS(_3518052_37);
+if (True == _3518053_37) {
+Obj _3518054_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518055_37 = PRIM_CAR(_3518054_37);
+Obj _3518056_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518055_37);
+if (True == _3518056_37) {
+Obj _3518057_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518058_37 = PRIM_CDR(_3518057_37);
+Obj _3518059_37 = PRIM_ISCONS(_3518058_37);
+if (True == _3518059_37) {
+Obj _3518060_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518061_37 = PRIM_CDR(_3518060_37);
+Obj _3518062_37 = PRIM_CAR(_3518061_37);
+Obj f = _3518062_37;
+Obj _3518063_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518064_37 = PRIM_CDR(_3518063_37);
+Obj _3518065_37 = PRIM_CDR(_3518064_37);
+Obj _3518066_37 = PRIM_EQ(Nil, _3518065_37);
+if (True == _3518066_37) {
+Obj _3518067_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj args = _3518067_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun91, 10, R);
@@ -3193,40 +3273,40 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516787_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3516787_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518002_37= co->res;
+Obj _3518072_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518001_37= co->res;
+Obj _3518071_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3235,14 +3315,14 @@ return;
 }
 case 3:
 {
-Obj _3518005_37= co->res;
+Obj _3518075_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518004_37= co->res;
+Obj _3518074_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 3, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3251,14 +3331,14 @@ return;
 }
 case 5:
 {
-Obj _3518008_37= co->res;
+Obj _3518078_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518007_37= co->res;
+Obj _3518077_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 5, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3267,14 +3347,14 @@ return;
 }
 case 7:
 {
-Obj _3518010_37= co->res;
+Obj _3518080_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518009_37= co->res;
+Obj _3518079_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun91, 7, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -3283,25 +3363,25 @@ return;
 }
 case 9:
 {
-Obj _3517999_37= co->res;
+Obj _3518069_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3518000_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518000_37) {
+Obj _3518070_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
+if (True == _3518070_37) {
 R[1] = args;
 saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518003_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518003_37) {
+Obj _3518073_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
+if (True == _3518073_37) {
 R[1] = args;
 saveCont(co, clofun91, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518006_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518006_37) {
+Obj _3518076_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
+if (True == _3518076_37) {
 R[1] = args;
 saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
@@ -3317,13 +3397,13 @@ return;
 }
 case 10:
 {
-Obj _3517998_37= co->res;
+Obj _3518068_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3517998_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518068_37);
 return;
 }
 }
@@ -3333,42 +3413,42 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516718_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517946_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517946_37) {
-Obj _3517947_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517948_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517947_37);
-if (True == _3517948_37) {
-Obj _3517949_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517950_37 = PRIM_ISCONS(_3517949_37);
-if (True == _3517950_37) {
-Obj _3517951_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517952_37 = PRIM_CAR(_3517951_37);
-Obj a = _3517952_37;
-Obj _3517953_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517954_37 = PRIM_CDR(_3517953_37);
-Obj _3517955_37 = PRIM_ISCONS(_3517954_37);
-if (True == _3517955_37) {
-Obj _3517956_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517957_37 = PRIM_CDR(_3517956_37);
-Obj _3517958_37 = PRIM_CAR(_3517957_37);
-Obj b = _3517958_37;
-Obj _3517959_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517960_37 = PRIM_CDR(_3517959_37);
-Obj _3517961_37 = PRIM_CDR(_3517960_37);
-Obj _3517962_37 = PRIM_ISCONS(_3517961_37);
-if (True == _3517962_37) {
-Obj _3517963_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517964_37 = PRIM_CDR(_3517963_37);
-Obj _3517965_37 = PRIM_CDR(_3517964_37);
-Obj _3517966_37 = PRIM_CAR(_3517965_37);
-Obj c = _3517966_37;
-Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517968_37 = PRIM_CDR(_3517967_37);
-Obj _3517969_37 = PRIM_CDR(_3517968_37);
-Obj _3517970_37 = PRIM_CDR(_3517969_37);
-Obj _3517971_37 = PRIM_EQ(Nil, _3517970_37);
-if (True == _3517971_37) {
+Obj _3516788_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518016_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518016_37) {
+Obj _3518017_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518018_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518017_37);
+if (True == _3518018_37) {
+Obj _3518019_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518020_37 = PRIM_ISCONS(_3518019_37);
+if (True == _3518020_37) {
+Obj _3518021_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518022_37 = PRIM_CAR(_3518021_37);
+Obj a = _3518022_37;
+Obj _3518023_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518024_37 = PRIM_CDR(_3518023_37);
+Obj _3518025_37 = PRIM_ISCONS(_3518024_37);
+if (True == _3518025_37) {
+Obj _3518026_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518027_37 = PRIM_CDR(_3518026_37);
+Obj _3518028_37 = PRIM_CAR(_3518027_37);
+Obj b = _3518028_37;
+Obj _3518029_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518030_37 = PRIM_CDR(_3518029_37);
+Obj _3518031_37 = PRIM_CDR(_3518030_37);
+Obj _3518032_37 = PRIM_ISCONS(_3518031_37);
+if (True == _3518032_37) {
+Obj _3518033_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518034_37 = PRIM_CDR(_3518033_37);
+Obj _3518035_37 = PRIM_CDR(_3518034_37);
+Obj _3518036_37 = PRIM_CAR(_3518035_37);
+Obj c = _3518036_37;
+Obj _3518037_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518038_37 = PRIM_CDR(_3518037_37);
+Obj _3518039_37 = PRIM_CDR(_3518038_37);
+Obj _3518040_37 = PRIM_CDR(_3518039_37);
+Obj _3518041_37 = PRIM_EQ(Nil, _3518040_37);
+if (True == _3518041_37) {
 R[1] = a;
 R[2] = b;
 R[3] = c;
@@ -3377,53 +3457,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3516788_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517980_37= co->res;
+Obj _3518050_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3517979_37= co->res;
+Obj _3518049_37= co->res;
 Obj c = R[1];
 saveCont(co, clofun90, 1, R);
-coraCall2(co, _3517979_37, c, closureRef(R[0], 4));
+coraCall2(co, _3518049_37, c, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517978_37= co->res;
+Obj _3518048_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun90, 2, R);
@@ -3432,7 +3512,7 @@ return;
 }
 case 4:
 {
-Obj _3517977_37= co->res;
+Obj _3518047_37= co->res;
 Obj c = R[1];
 R[1] = c;
 saveCont(co, clofun90, 3, R);
@@ -3441,17 +3521,17 @@ return;
 }
 case 5:
 {
-Obj _3517976_37= co->res;
+Obj _3518046_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = c;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, _3517976_37, b, closureRef(R[0], 4));
+coraCall2(co, _3518046_37, b, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3517975_37= co->res;
+Obj _3518045_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
@@ -3462,7 +3542,7 @@ return;
 }
 case 7:
 {
-Obj _3517974_37= co->res;
+Obj _3518044_37= co->res;
 Obj b = R[1];
 Obj c = R[2];
 R[1] = b;
@@ -3473,19 +3553,19 @@ return;
 }
 case 8:
 {
-Obj _3517973_37= co->res;
+Obj _3518043_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
 R[1] = b;
 R[2] = c;
 saveCont(co, clofun90, 7, R);
-coraCall2(co, _3517973_37, a, closureRef(R[0], 4));
+coraCall2(co, _3518043_37, a, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3517972_37= co->res;
+Obj _3518042_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 Obj c = R[3];
@@ -3503,41 +3583,41 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516719_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517908_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517908_37) {
-Obj _3517909_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517910_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517909_37);
-if (True == _3517910_37) {
-Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517912_37 = PRIM_ISCONS(_3517911_37);
-if (True == _3517912_37) {
-Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517914_37 = PRIM_CAR(_3517913_37);
-Obj label = _3517914_37;
-Obj _3517915_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517916_37 = PRIM_CDR(_3517915_37);
-Obj _3517917_37 = PRIM_ISCONS(_3517916_37);
-if (True == _3517917_37) {
-Obj _3517918_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517919_37 = PRIM_CDR(_3517918_37);
-Obj _3517920_37 = PRIM_CAR(_3517919_37);
-Obj nargs = _3517920_37;
-Obj _3517921_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517922_37 = PRIM_CDR(_3517921_37);
-Obj _3517923_37 = PRIM_CDR(_3517922_37);
-Obj _3517924_37 = PRIM_ISCONS(_3517923_37);
-if (True == _3517924_37) {
-Obj _3517925_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517926_37 = PRIM_CDR(_3517925_37);
-Obj _3517927_37 = PRIM_CDR(_3517926_37);
-Obj _3517928_37 = PRIM_CAR(_3517927_37);
-Obj nframe = _3517928_37;
-Obj _3517929_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517930_37 = PRIM_CDR(_3517929_37);
-Obj _3517931_37 = PRIM_CDR(_3517930_37);
-Obj _3517932_37 = PRIM_CDR(_3517931_37);
-Obj frees = _3517932_37;
+Obj _3516789_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3517978_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517978_37) {
+Obj _3517979_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517980_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517979_37);
+if (True == _3517980_37) {
+Obj _3517981_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517982_37 = PRIM_ISCONS(_3517981_37);
+if (True == _3517982_37) {
+Obj _3517983_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517984_37 = PRIM_CAR(_3517983_37);
+Obj label = _3517984_37;
+Obj _3517985_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517986_37 = PRIM_CDR(_3517985_37);
+Obj _3517987_37 = PRIM_ISCONS(_3517986_37);
+if (True == _3517987_37) {
+Obj _3517988_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517989_37 = PRIM_CDR(_3517988_37);
+Obj _3517990_37 = PRIM_CAR(_3517989_37);
+Obj nargs = _3517990_37;
+Obj _3517991_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517992_37 = PRIM_CDR(_3517991_37);
+Obj _3517993_37 = PRIM_CDR(_3517992_37);
+Obj _3517994_37 = PRIM_ISCONS(_3517993_37);
+if (True == _3517994_37) {
+Obj _3517995_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517996_37 = PRIM_CDR(_3517995_37);
+Obj _3517997_37 = PRIM_CDR(_3517996_37);
+Obj _3517998_37 = PRIM_CAR(_3517997_37);
+Obj nframe = _3517998_37;
+Obj _3517999_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518000_37 = PRIM_CDR(_3517999_37);
+Obj _3518001_37 = PRIM_CDR(_3518000_37);
+Obj _3518002_37 = PRIM_CDR(_3518001_37);
+Obj frees = _3518002_37;
 R[1] = nframe;
 R[2] = label;
 R[3] = nargs;
@@ -3547,40 +3627,40 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516789_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3516789_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517945_37= co->res;
+Obj _3518015_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3517944_37= co->res;
+Obj _3518014_37= co->res;
 Obj frees = R[1];
 saveCont(co, clofun89, 1, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
@@ -3589,10 +3669,10 @@ return;
 }
 case 3:
 {
-Obj _3517942_37= co->res;
+Obj _3518012_37= co->res;
 Obj frees = R[1];
-Obj _3517943_37 = primNot(_3517942_37);
-if (True == _3517943_37) {
+Obj _3518013_37 = primNot(_3518012_37);
+if (True == _3518013_37) {
 R[1] = frees;
 saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -3606,7 +3686,7 @@ return;
 }
 case 4:
 {
-Obj _3517941_37= co->res;
+Obj _3518011_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 3, R);
@@ -3615,16 +3695,16 @@ return;
 }
 case 5:
 {
-Obj _3517940_37= co->res;
+Obj _3518010_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517940_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518010_37);
 return;
 }
 case 6:
 {
-Obj _3517939_37= co->res;
+Obj _3518009_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 5, R);
@@ -3633,7 +3713,7 @@ return;
 }
 case 7:
 {
-Obj _3517938_37= co->res;
+Obj _3518008_37= co->res;
 Obj frees = R[1];
 R[1] = frees;
 saveCont(co, clofun89, 6, R);
@@ -3642,7 +3722,7 @@ return;
 }
 case 8:
 {
-Obj _3517937_37= co->res;
+Obj _3518007_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = frees;
@@ -3652,7 +3732,7 @@ return;
 }
 case 9:
 {
-Obj _3517936_37= co->res;
+Obj _3518006_37= co->res;
 Obj nargs = R[1];
 Obj frees = R[2];
 R[1] = nargs;
@@ -3663,7 +3743,7 @@ return;
 }
 case 10:
 {
-Obj _3517935_37= co->res;
+Obj _3518005_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3675,7 +3755,7 @@ return;
 }
 case 11:
 {
-Obj _3517934_37= co->res;
+Obj _3518004_37= co->res;
 Obj label = R[1];
 Obj nargs = R[2];
 Obj frees = R[3];
@@ -3688,7 +3768,7 @@ return;
 }
 case 12:
 {
-Obj _3517933_37= co->res;
+Obj _3518003_37= co->res;
 Obj nframe = R[1];
 Obj label = R[2];
 Obj nargs = R[3];
@@ -3707,31 +3787,31 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516720_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517887_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517887_37) {
-Obj _3517888_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517889_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517888_37);
-if (True == _3517889_37) {
-Obj _3517890_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517891_37 = PRIM_ISCONS(_3517890_37);
-if (True == _3517891_37) {
-Obj _3517892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517893_37 = PRIM_CAR(_3517892_37);
-Obj a = _3517893_37;
-Obj _3517894_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517895_37 = PRIM_CDR(_3517894_37);
-Obj _3517896_37 = PRIM_ISCONS(_3517895_37);
-if (True == _3517896_37) {
-Obj _3517897_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517898_37 = PRIM_CDR(_3517897_37);
-Obj _3517899_37 = PRIM_CAR(_3517898_37);
-Obj b = _3517899_37;
-Obj _3517900_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517901_37 = PRIM_CDR(_3517900_37);
-Obj _3517902_37 = PRIM_CDR(_3517901_37);
-Obj _3517903_37 = PRIM_EQ(Nil, _3517902_37);
-if (True == _3517903_37) {
+Obj _3516790_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3517957_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517957_37) {
+Obj _3517958_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517959_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517958_37);
+if (True == _3517959_37) {
+Obj _3517960_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517961_37 = PRIM_ISCONS(_3517960_37);
+if (True == _3517961_37) {
+Obj _3517962_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517963_37 = PRIM_CAR(_3517962_37);
+Obj a = _3517963_37;
+Obj _3517964_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517965_37 = PRIM_CDR(_3517964_37);
+Obj _3517966_37 = PRIM_ISCONS(_3517965_37);
+if (True == _3517966_37) {
+Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517968_37 = PRIM_CDR(_3517967_37);
+Obj _3517969_37 = PRIM_CAR(_3517968_37);
+Obj b = _3517969_37;
+Obj _3517970_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517971_37 = PRIM_CDR(_3517970_37);
+Obj _3517972_37 = PRIM_CDR(_3517971_37);
+Obj _3517973_37 = PRIM_EQ(Nil, _3517972_37);
+if (True == _3517973_37) {
 R[1] = a;
 R[2] = b;
 saveCont(co, clofun88, 4, R);
@@ -3739,41 +3819,41 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516790_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3516790_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517907_37= co->res;
+Obj _3517977_37= co->res;
 Obj b = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517907_37, b, closureRef(R[0], 5));
+coraCall2(co, _3517977_37, b, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517906_37= co->res;
+Obj _3517976_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun88, 1, R);
@@ -3782,7 +3862,7 @@ return;
 }
 case 3:
 {
-Obj _3517905_37= co->res;
+Obj _3517975_37= co->res;
 Obj b = R[1];
 R[1] = b;
 saveCont(co, clofun88, 2, R);
@@ -3791,12 +3871,12 @@ return;
 }
 case 4:
 {
-Obj _3517904_37= co->res;
+Obj _3517974_37= co->res;
 Obj a = R[1];
 Obj b = R[2];
 R[1] = b;
 saveCont(co, clofun88, 3, R);
-coraCall2(co, _3517904_37, a, closureRef(R[0], 5));
+coraCall2(co, _3517974_37, a, closureRef(R[0], 5));
 return;
 }
 }
@@ -3806,72 +3886,72 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516721_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517873_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517873_37) {
-Obj _3517874_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517875_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517874_37);
-if (True == _3517875_37) {
-Obj _3517876_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517877_37 = PRIM_ISCONS(_3517876_37);
-if (True == _3517877_37) {
-Obj _3517878_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517879_37 = PRIM_CAR(_3517878_37);
-Obj x = _3517879_37;
-Obj _3517880_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517881_37 = PRIM_CDR(_3517880_37);
-Obj _3517882_37 = PRIM_EQ(Nil, _3517881_37);
-if (True == _3517882_37) {
+Obj _3516791_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517943_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517943_37) {
+Obj _3517944_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517945_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517944_37);
+if (True == _3517945_37) {
+Obj _3517946_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517947_37 = PRIM_ISCONS(_3517946_37);
+if (True == _3517947_37) {
+Obj _3517948_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517949_37 = PRIM_CAR(_3517948_37);
+Obj x = _3517949_37;
+Obj _3517950_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517951_37 = PRIM_CDR(_3517950_37);
+Obj _3517952_37 = PRIM_EQ(Nil, _3517951_37);
+if (True == _3517952_37) {
 R[1] = x;
 saveCont(co, clofun87, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516791_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3516791_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517886_37= co->res;
+Obj _3517956_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517885_37= co->res;
+Obj _3517955_37= co->res;
 saveCont(co, clofun87, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517884_37= co->res;
+Obj _3517954_37= co->res;
 Obj x = R[1];
 saveCont(co, clofun87, 2, R);
-coraCall2(co, _3517884_37, x, closureRef(R[0], 4));
+coraCall2(co, _3517954_37, x, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517883_37= co->res;
+Obj _3517953_37= co->res;
 Obj x = R[1];
 R[1] = x;
 saveCont(co, clofun87, 3, R);
@@ -3885,65 +3965,65 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517860_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517860_37) {
-Obj _3517861_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517862_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517861_37);
-if (True == _3517862_37) {
-Obj _3517863_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517864_37 = PRIM_ISCONS(_3517863_37);
-if (True == _3517864_37) {
-Obj _3517865_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517866_37 = PRIM_CAR(_3517865_37);
-Obj exp = _3517866_37;
-Obj _3517867_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517868_37 = PRIM_CDR(_3517867_37);
-Obj _3517869_37 = PRIM_EQ(Nil, _3517868_37);
-if (True == _3517869_37) {
+Obj _3516792_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517930_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3517930_37) {
+Obj _3517931_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3517932_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517931_37);
+if (True == _3517932_37) {
+Obj _3517933_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517934_37 = PRIM_ISCONS(_3517933_37);
+if (True == _3517934_37) {
+Obj _3517935_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517936_37 = PRIM_CAR(_3517935_37);
+Obj exp = _3517936_37;
+Obj _3517937_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3517938_37 = PRIM_CDR(_3517937_37);
+Obj _3517939_37 = PRIM_EQ(Nil, _3517938_37);
+if (True == _3517939_37) {
 R[1] = exp;
 saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3516792_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517872_37= co->res;
+Obj _3517942_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517871_37= co->res;
+Obj _3517941_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517871_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517941_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517870_37= co->res;
+Obj _3517940_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun86, 2, R);
@@ -3957,30 +4037,30 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516723_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517836_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517836_37) {
-Obj _3517837_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517838_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517837_37);
-if (True == _3517838_37) {
-Obj _3517839_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517840_37 = PRIM_ISCONS(_3517839_37);
-if (True == _3517840_37) {
-Obj _3517841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517842_37 = PRIM_CAR(_3517841_37);
-Obj exp = _3517842_37;
-Obj _3517843_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517844_37 = PRIM_CDR(_3517843_37);
-Obj _3517845_37 = PRIM_ISCONS(_3517844_37);
-if (True == _3517845_37) {
-Obj _3517846_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517847_37 = PRIM_CDR(_3517846_37);
-Obj _3517848_37 = PRIM_CAR(_3517847_37);
-Obj label = _3517848_37;
-Obj _3517849_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517850_37 = PRIM_CDR(_3517849_37);
-Obj _3517851_37 = PRIM_CDR(_3517850_37);
-Obj fvs = _3517851_37;
+Obj _3516793_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3517906_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517906_37) {
+Obj _3517907_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517908_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517907_37);
+if (True == _3517908_37) {
+Obj _3517909_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517910_37 = PRIM_ISCONS(_3517909_37);
+if (True == _3517910_37) {
+Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517912_37 = PRIM_CAR(_3517911_37);
+Obj exp = _3517912_37;
+Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517914_37 = PRIM_CDR(_3517913_37);
+Obj _3517915_37 = PRIM_ISCONS(_3517914_37);
+if (True == _3517915_37) {
+Obj _3517916_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517917_37 = PRIM_CDR(_3517916_37);
+Obj _3517918_37 = PRIM_CAR(_3517917_37);
+Obj label = _3517918_37;
+Obj _3517919_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517920_37 = PRIM_CDR(_3517919_37);
+Obj _3517921_37 = PRIM_CDR(_3517920_37);
+Obj fvs = _3517921_37;
 R[1] = label;
 R[2] = exp;
 saveCont(co, clofun85, 8, R);
@@ -3989,43 +4069,43 @@ coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516723_37);
+coraCall0(co, _3516793_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517859_37= co->res;
+Obj _3517929_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517858_37= co->res;
+Obj _3517928_37= co->res;
 Obj exp = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, _3517858_37, exp, closureRef(R[0], 4));
+coraCall2(co, _3517928_37, exp, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517857_37= co->res;
+Obj _3517927_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun85, 2, R);
@@ -4034,7 +4114,7 @@ return;
 }
 case 4:
 {
-Obj _3517856_37= co->res;
+Obj _3517926_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun85, 3, R);
@@ -4043,7 +4123,7 @@ return;
 }
 case 5:
 {
-Obj _3517855_37= co->res;
+Obj _3517925_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = exp;
@@ -4053,7 +4133,7 @@ return;
 }
 case 6:
 {
-Obj _3517854_37= co->res;
+Obj _3517924_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4064,7 +4144,7 @@ return;
 }
 case 7:
 {
-Obj _3517853_37= co->res;
+Obj _3517923_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4075,7 +4155,7 @@ return;
 }
 case 8:
 {
-Obj _3517852_37= co->res;
+Obj _3517922_37= co->res;
 Obj label = R[1];
 Obj exp = R[2];
 R[1] = label;
@@ -4091,12 +4171,12 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517813_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517813_37) {
-Obj _3517814_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517814_37;
-Obj _3517815_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517815_37;
+Obj _3517883_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517883_37) {
+Obj _3517884_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517884_37;
+Obj _3517885_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517885_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun84, 18, R);
@@ -4110,14 +4190,14 @@ return;
 }
 case 1:
 {
-Obj _3517827_37= co->res;
+Obj _3517897_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517826_37= co->res;
+Obj _3517896_37= co->res;
 Obj nargs = R[1];
 saveCont(co, clofun84, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
@@ -4125,7 +4205,7 @@ return;
 }
 case 3:
 {
-Obj _3517825_37= co->res;
+Obj _3517895_37= co->res;
 Obj nargs = R[1];
 R[1] = nargs;
 saveCont(co, clofun84, 2, R);
@@ -4134,17 +4214,17 @@ return;
 }
 case 4:
 {
-Obj _3517824_37= co->res;
+Obj _3517894_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = nargs;
 saveCont(co, clofun84, 3, R);
-coraCall2(co, _3517824_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517894_37, f, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517823_37= co->res;
+Obj _3517893_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4155,7 +4235,7 @@ return;
 }
 case 6:
 {
-Obj _3517822_37= co->res;
+Obj _3517892_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4166,7 +4246,7 @@ return;
 }
 case 7:
 {
-Obj _3517821_37= co->res;
+Obj _3517891_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 R[1] = f;
@@ -4177,7 +4257,7 @@ return;
 }
 case 8:
 {
-Obj _3517820_37= co->res;
+Obj _3517890_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4190,7 +4270,7 @@ return;
 }
 case 9:
 {
-Obj _3517819_37= co->res;
+Obj _3517889_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4203,7 +4283,7 @@ return;
 }
 case 10:
 {
-Obj _3517818_37= co->res;
+Obj _3517888_37= co->res;
 Obj args = R[1];
 Obj f = R[2];
 Obj nargs = R[3];
@@ -4216,14 +4296,14 @@ return;
 }
 case 11:
 {
-Obj _3517835_37= co->res;
+Obj _3517905_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517834_37= co->res;
+Obj _3517904_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun84, 11, R);
 Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
@@ -4232,11 +4312,11 @@ return;
 }
 case 13:
 {
-Obj _3517832_37= co->res;
+Obj _3517902_37= co->res;
 Obj nargs = R[1];
 Obj args = R[2];
-Obj _3517833_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517833_37) {
+Obj _3517903_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
+if (True == _3517903_37) {
 R[1] = args;
 saveCont(co, clofun84, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
@@ -4250,19 +4330,19 @@ return;
 }
 case 14:
 {
-Obj _3517831_37= co->res;
+Obj _3517901_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
 R[1] = nargs;
 R[2] = args;
 saveCont(co, clofun84, 13, R);
-coraCall2(co, _3517831_37, f, closureRef(R[0], 4));
+coraCall2(co, _3517901_37, f, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517830_37= co->res;
+Obj _3517900_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4275,7 +4355,7 @@ return;
 }
 case 16:
 {
-Obj _3517829_37= co->res;
+Obj _3517899_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4288,7 +4368,7 @@ return;
 }
 case 17:
 {
-Obj _3517828_37= co->res;
+Obj _3517898_37= co->res;
 Obj f = R[1];
 Obj nargs = R[2];
 Obj args = R[3];
@@ -4301,12 +4381,12 @@ return;
 }
 case 18:
 {
-Obj _3517816_37= co->res;
+Obj _3517886_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj nargs = _3517816_37;
-Obj _3517817_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517817_37) {
+Obj nargs = _3517886_37;
+Obj _3517887_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
+if (True == _3517887_37) {
 R[1] = args;
 R[2] = f;
 R[3] = nargs;
@@ -4355,15 +4435,15 @@ return;
 }
 case 1:
 {
-Obj _3517808_37= co->res;
+Obj _3517878_37= co->res;
 Obj acc = R[1];
-Obj _3517809_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517809_37);
+Obj _3517879_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517879_37);
 return;
 }
 case 2:
 {
-Obj _3517807_37= co->res;
+Obj _3517877_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun82, 1, R);
@@ -4372,7 +4452,7 @@ return;
 }
 case 3:
 {
-Obj _3517806_37= co->res;
+Obj _3517876_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun82, 2, R);
@@ -4381,7 +4461,7 @@ return;
 }
 case 4:
 {
-Obj _3517805_37= co->res;
+Obj _3517875_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun82, 3, R);
@@ -4390,7 +4470,7 @@ return;
 }
 case 5:
 {
-Obj _3517804_37= co->res;
+Obj _3517874_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -4432,15 +4512,15 @@ return;
 }
 case 1:
 {
-Obj _3517801_37= co->res;
+Obj _3517871_37= co->res;
 Obj acc = R[1];
-Obj _3517802_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517802_37);
+Obj _3517872_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3517872_37);
 return;
 }
 case 2:
 {
-Obj _3517800_37= co->res;
+Obj _3517870_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun80, 1, R);
@@ -4449,7 +4529,7 @@ return;
 }
 case 3:
 {
-Obj _3517799_37= co->res;
+Obj _3517869_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
@@ -4460,7 +4540,7 @@ return;
 }
 case 4:
 {
-Obj _3517798_37= co->res;
+Obj _3517868_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
@@ -4471,7 +4551,7 @@ return;
 }
 case 5:
 {
-Obj _3517797_37= co->res;
+Obj _3517867_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
@@ -4512,24 +4592,24 @@ return;
 }
 case 1:
 {
-Obj _3517790_37= co->res;
+Obj _3517860_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517790_37) {
+if (True == _3517860_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517791_37 = PRIM_CAR(globals);
-Obj _3517792_37 = PRIM_EQ(sym, _3517791_37);
-if (True == _3517792_37) {
+Obj _3517861_37 = PRIM_CAR(globals);
+Obj _3517862_37 = PRIM_EQ(sym, _3517861_37);
+if (True == _3517862_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517793_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517794_37 = PRIM_CDR(globals);
+Obj _3517863_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517864_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517793_37, sym, _3517794_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517863_37, sym, _3517864_37);
 return;
 }
 }
@@ -4551,26 +4631,26 @@ return;
 }
 case 1:
 {
-Obj _3517786_37= co->res;
+Obj _3517856_37= co->res;
 Obj sym = R[1];
 Obj val = R[2];
 Obj globals = R[3];
-if (True == _3517786_37) {
+if (True == _3517856_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517787_37 = makeCons(co->gc, sym, val);
-Obj _3517788_37 = primSet(co, globals, _3517787_37);
-coraReturn(co, _3517788_37);
+Obj _3517857_37 = makeCons(co->gc, sym, val);
+Obj _3517858_37 = primSet(co, globals, _3517857_37);
+coraReturn(co, _3517858_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517785_37= co->res;
+Obj _3517855_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517785_37;
+Obj val = _3517855_37;
 R[1] = sym;
 R[2] = val;
 R[3] = globals;
@@ -4587,8 +4667,8 @@ case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517778_37 = primGenSym(co);
-Obj tmp = _3517778_37;
+Obj _3517848_37 = primGenSym(co);
+Obj tmp = _3517848_37;
 R[1] = x;
 R[2] = tmp;
 saveCont(co, clofun76, 1, R);
@@ -4597,14 +4677,14 @@ return;
 }
 case 1:
 {
-Obj _3517779_37= co->res;
+Obj _3517849_37= co->res;
 Obj x = R[1];
 Obj tmp = R[2];
-Obj _3517780_37 = makeCons(co->gc, _3517779_37, Nil);
-Obj _3517781_37 = makeCons(co->gc, x, _3517780_37);
-Obj _3517782_37 = makeCons(co->gc, tmp, _3517781_37);
-Obj _3517783_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517782_37);
-coraReturn(co, _3517783_37);
+Obj _3517850_37 = makeCons(co->gc, _3517849_37, Nil);
+Obj _3517851_37 = makeCons(co->gc, x, _3517850_37);
+Obj _3517852_37 = makeCons(co->gc, tmp, _3517851_37);
+Obj _3517853_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517852_37);
+coraReturn(co, _3517853_37);
 return;
 }
 }
@@ -4624,7 +4704,7 @@ return;
 }
 case 1:
 {
-Obj _3517776_37= co->res;
+Obj _3517846_37= co->res;
 Obj v = R[1];
 Obj cur1 = R[2];
 co->ctx.sp = R;
@@ -4633,28 +4713,28 @@ return;
 }
 case 2:
 {
-Obj _3517771_37= co->res;
+Obj _3517841_37= co->res;
 Obj val = R[1];
 Obj idx = R[2];
 Obj v = R[3];
-Obj cur = _3517771_37;
-Obj _3517772_37 = makeCons(co->gc, val, Nil);
-Obj _3517773_37 = makeCons(co->gc, idx, _3517772_37);
-Obj _3517774_37 = makeCons(co->gc, _3517773_37, cur);
-Obj cur1 = _3517774_37;
-Obj _3517775_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj cur = _3517841_37;
+Obj _3517842_37 = makeCons(co->gc, val, Nil);
+Obj _3517843_37 = makeCons(co->gc, idx, _3517842_37);
+Obj _3517844_37 = makeCons(co->gc, _3517843_37, cur);
+Obj cur1 = _3517844_37;
+Obj _3517845_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
 R[1] = v;
 R[2] = cur1;
 saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517775_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517845_37);
 return;
 }
 case 3:
 {
-Obj _3517770_37= co->res;
+Obj _3517840_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517770_37;
+Obj idx = _3517840_37;
 R[1] = val;
 R[2] = idx;
 R[3] = v;
@@ -4669,121 +4749,121 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516708_37 = R[1];
-Obj _3516709_37 = R[2];
-Obj _3516710_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516708_37, _3516709_37);
-Obj _3517721_37 = PRIM_ISCONS(_3516709_37);
-if (True == _3517721_37) {
-Obj _3517722_37 = PRIM_CAR(_3516709_37);
-Obj _3517723_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517722_37);
-if (True == _3517723_37) {
-Obj _3517724_37 = PRIM_CDR(_3516709_37);
-Obj _3517725_37 = PRIM_ISCONS(_3517724_37);
-if (True == _3517725_37) {
-Obj _3517726_37 = PRIM_CDR(_3516709_37);
-Obj _3517727_37 = PRIM_CAR(_3517726_37);
-Obj _3517728_37 = PRIM_ISCONS(_3517727_37);
-if (True == _3517728_37) {
-Obj _3517729_37 = PRIM_CDR(_3516709_37);
-Obj _3517730_37 = PRIM_CAR(_3517729_37);
-Obj _3517731_37 = PRIM_CAR(_3517730_37);
-Obj _3517732_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517731_37);
-if (True == _3517732_37) {
-Obj _3517733_37 = PRIM_CDR(_3516709_37);
-Obj _3517734_37 = PRIM_CAR(_3517733_37);
-Obj _3517735_37 = PRIM_CDR(_3517734_37);
-Obj _3517736_37 = PRIM_ISCONS(_3517735_37);
-if (True == _3517736_37) {
-Obj _3517737_37 = PRIM_CDR(_3516709_37);
-Obj _3517738_37 = PRIM_CAR(_3517737_37);
-Obj _3517739_37 = PRIM_CDR(_3517738_37);
-Obj _3517740_37 = PRIM_CAR(_3517739_37);
-Obj params = _3517740_37;
-Obj _3517741_37 = PRIM_CDR(_3516709_37);
-Obj _3517742_37 = PRIM_CAR(_3517741_37);
-Obj _3517743_37 = PRIM_CDR(_3517742_37);
-Obj _3517744_37 = PRIM_CDR(_3517743_37);
-Obj _3517745_37 = PRIM_ISCONS(_3517744_37);
-if (True == _3517745_37) {
-Obj _3517746_37 = PRIM_CDR(_3516709_37);
-Obj _3517747_37 = PRIM_CAR(_3517746_37);
-Obj _3517748_37 = PRIM_CDR(_3517747_37);
-Obj _3517749_37 = PRIM_CDR(_3517748_37);
-Obj _3517750_37 = PRIM_CAR(_3517749_37);
-Obj body = _3517750_37;
-Obj _3517751_37 = PRIM_CDR(_3516709_37);
-Obj _3517752_37 = PRIM_CAR(_3517751_37);
-Obj _3517753_37 = PRIM_CDR(_3517752_37);
-Obj _3517754_37 = PRIM_CDR(_3517753_37);
-Obj _3517755_37 = PRIM_CDR(_3517754_37);
-Obj _3517756_37 = PRIM_EQ(Nil, _3517755_37);
-if (True == _3517756_37) {
-Obj _3517757_37 = PRIM_CDR(_3516709_37);
-Obj _3517758_37 = PRIM_CDR(_3517757_37);
-Obj fvs = _3517758_37;
-R[1] = _3516708_37;
+Obj _3516778_37 = R[1];
+Obj _3516779_37 = R[2];
+Obj _3516780_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516778_37, _3516779_37);
+Obj _3517791_37 = PRIM_ISCONS(_3516779_37);
+if (True == _3517791_37) {
+Obj _3517792_37 = PRIM_CAR(_3516779_37);
+Obj _3517793_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517792_37);
+if (True == _3517793_37) {
+Obj _3517794_37 = PRIM_CDR(_3516779_37);
+Obj _3517795_37 = PRIM_ISCONS(_3517794_37);
+if (True == _3517795_37) {
+Obj _3517796_37 = PRIM_CDR(_3516779_37);
+Obj _3517797_37 = PRIM_CAR(_3517796_37);
+Obj _3517798_37 = PRIM_ISCONS(_3517797_37);
+if (True == _3517798_37) {
+Obj _3517799_37 = PRIM_CDR(_3516779_37);
+Obj _3517800_37 = PRIM_CAR(_3517799_37);
+Obj _3517801_37 = PRIM_CAR(_3517800_37);
+Obj _3517802_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517801_37);
+if (True == _3517802_37) {
+Obj _3517803_37 = PRIM_CDR(_3516779_37);
+Obj _3517804_37 = PRIM_CAR(_3517803_37);
+Obj _3517805_37 = PRIM_CDR(_3517804_37);
+Obj _3517806_37 = PRIM_ISCONS(_3517805_37);
+if (True == _3517806_37) {
+Obj _3517807_37 = PRIM_CDR(_3516779_37);
+Obj _3517808_37 = PRIM_CAR(_3517807_37);
+Obj _3517809_37 = PRIM_CDR(_3517808_37);
+Obj _3517810_37 = PRIM_CAR(_3517809_37);
+Obj params = _3517810_37;
+Obj _3517811_37 = PRIM_CDR(_3516779_37);
+Obj _3517812_37 = PRIM_CAR(_3517811_37);
+Obj _3517813_37 = PRIM_CDR(_3517812_37);
+Obj _3517814_37 = PRIM_CDR(_3517813_37);
+Obj _3517815_37 = PRIM_ISCONS(_3517814_37);
+if (True == _3517815_37) {
+Obj _3517816_37 = PRIM_CDR(_3516779_37);
+Obj _3517817_37 = PRIM_CAR(_3517816_37);
+Obj _3517818_37 = PRIM_CDR(_3517817_37);
+Obj _3517819_37 = PRIM_CDR(_3517818_37);
+Obj _3517820_37 = PRIM_CAR(_3517819_37);
+Obj body = _3517820_37;
+Obj _3517821_37 = PRIM_CDR(_3516779_37);
+Obj _3517822_37 = PRIM_CAR(_3517821_37);
+Obj _3517823_37 = PRIM_CDR(_3517822_37);
+Obj _3517824_37 = PRIM_CDR(_3517823_37);
+Obj _3517825_37 = PRIM_CDR(_3517824_37);
+Obj _3517826_37 = PRIM_EQ(Nil, _3517825_37);
+if (True == _3517826_37) {
+Obj _3517827_37 = PRIM_CDR(_3516779_37);
+Obj _3517828_37 = PRIM_CDR(_3517827_37);
+Obj fvs = _3517828_37;
+R[1] = _3516778_37;
 R[2] = params;
 R[3] = fvs;
 saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516708_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516778_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516710_37);
+coraCall0(co, _3516780_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517764_37= co->res;
+Obj _3517834_37= co->res;
 Obj nframe = R[1];
 Obj fvs = R[2];
 Obj cur = R[3];
-Obj _3517765_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517766_37 = makeCons(co->gc, _3517764_37, _3517765_37);
-Obj _3517767_37 = makeCons(co->gc, cur, _3517766_37);
-Obj _3517768_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517767_37);
-coraReturn(co, _3517768_37);
+Obj _3517835_37 = makeCons(co->gc, nframe, fvs);
+Obj _3517836_37 = makeCons(co->gc, _3517834_37, _3517835_37);
+Obj _3517837_37 = makeCons(co->gc, cur, _3517836_37);
+Obj _3517838_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517837_37);
+coraReturn(co, _3517838_37);
 return;
 }
 case 2:
 {
-Obj _3517763_37= co->res;
+Obj _3517833_37= co->res;
 Obj params = R[1];
 Obj nframe = R[2];
 Obj fvs = R[3];
@@ -4797,30 +4877,30 @@ return;
 }
 case 3:
 {
-Obj _3517762_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517832_37= co->res;
+Obj _3516778_37 = R[1];
 Obj body2 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
 Obj cur = R[5];
-Obj nframe = _3517762_37;
+Obj nframe = _3517832_37;
 R[1] = params;
 R[2] = nframe;
 R[3] = fvs;
 R[4] = cur;
 saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516708_37, body2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516778_37, body2);
 return;
 }
 case 4:
 {
-Obj _3517761_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517831_37= co->res;
+Obj _3516778_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
 Obj cur = R[4];
-Obj body2 = _3517761_37;
-R[1] = _3516708_37;
+Obj body2 = _3517831_37;
+R[1] = _3516778_37;
 R[2] = body2;
 R[3] = params;
 R[4] = fvs;
@@ -4831,13 +4911,13 @@ return;
 }
 case 5:
 {
-Obj _3517760_37= co->res;
+Obj _3517830_37= co->res;
 Obj body1 = R[1];
-Obj _3516708_37 = R[2];
+Obj _3516778_37 = R[2];
 Obj params = R[3];
 Obj fvs = R[4];
-Obj cur = _3517760_37;
-R[1] = _3516708_37;
+Obj cur = _3517830_37;
+R[1] = _3516778_37;
 R[2] = params;
 R[3] = fvs;
 R[4] = cur;
@@ -4847,17 +4927,17 @@ return;
 }
 case 6:
 {
-Obj _3517759_37= co->res;
-Obj _3516708_37 = R[1];
+Obj _3517829_37= co->res;
+Obj _3516778_37 = R[1];
 Obj params = R[2];
 Obj fvs = R[3];
-Obj body1 = _3517759_37;
+Obj body1 = _3517829_37;
 R[1] = body1;
-R[2] = _3516708_37;
+R[2] = _3516778_37;
 R[3] = params;
 R[4] = fvs;
 saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516708_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516778_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4867,8 +4947,8 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517719_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517719_37) {
+Obj _3517789_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517789_37) {
 saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4879,9 +4959,9 @@ return;
 }
 case 1:
 {
-Obj _3517720_37= co->res;
+Obj _3517790_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517720_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517790_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4899,30 +4979,30 @@ return;
 }
 case 1:
 {
-Obj _3517717_37= co->res;
-Obj _3517716_37 = R[1];
+Obj _3517787_37= co->res;
+Obj _3517786_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517716_37, _3517717_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517786_37, _3517787_37);
 return;
 }
 case 2:
 {
-Obj _3517711_37= co->res;
+Obj _3517781_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517711_37;
-Obj _3517716_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517716_37;
+Obj nargs = _3517781_37;
+Obj _3517786_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
+R[1] = _3517786_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 3:
 {
-Obj _3517710_37= co->res;
+Obj _3517780_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517710_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517780_37);
 return;
 }
 }
@@ -4941,12 +5021,12 @@ return;
 }
 case 1:
 {
-Obj _3517713_37= co->res;
+Obj _3517783_37= co->res;
 Obj acc = R[1];
-Obj _3517714_37 = PRIM_ADD(_3517713_37, MAKE_NUMBER(1));
-Obj len = _3517714_37;
-Obj _3517715_37 = PRIM_GT(len, acc);
-if (True == _3517715_37) {
+Obj _3517784_37 = PRIM_ADD(_3517783_37, MAKE_NUMBER(1));
+Obj len = _3517784_37;
+Obj _3517785_37 = PRIM_GT(len, acc);
+if (True == _3517785_37) {
 coraReturn(co, len);
 return;
 } else {
@@ -4956,11 +5036,11 @@ return;
 }
 case 2:
 {
-Obj _3517712_37= co->res;
+Obj _3517782_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517712_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517782_37);
 return;
 }
 }
@@ -4992,12 +5072,12 @@ return;
 }
 case 1:
 {
-Obj _3517705_37= co->res;
+Obj _3517775_37= co->res;
 Obj body1 = R[1];
-Obj _3517706_37 = makeCons(co->gc, body1, _3517705_37);
-Obj _3517707_37 = makeCons(co->gc, closureRef(R[0], 0), _3517706_37);
-Obj _3517708_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517707_37);
-coraReturn(co, _3517708_37);
+Obj _3517776_37 = makeCons(co->gc, body1, _3517775_37);
+Obj _3517777_37 = makeCons(co->gc, closureRef(R[0], 0), _3517776_37);
+Obj _3517778_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517777_37);
+coraReturn(co, _3517778_37);
 return;
 }
 }
@@ -5007,24 +5087,24 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516702_37 = R[1];
-Obj _3516703_37 = R[2];
-Obj _3516704_37 = R[3];
-Obj _3516705_37 = R[4];
-Obj _3517699_37 = PRIM_EQ(Nil, _3516702_37);
-if (True == _3517699_37) {
+Obj _3516772_37 = R[1];
+Obj _3516773_37 = R[2];
+Obj _3516774_37 = R[3];
+Obj _3516775_37 = R[4];
+Obj _3517769_37 = PRIM_EQ(Nil, _3516772_37);
+if (True == _3517769_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516705_37, _3516704_37, _3516703_37);
+coraCall2(co, _3516775_37, _3516774_37, _3516773_37);
 return;
 } else {
-Obj _3517700_37 = PRIM_ISCONS(_3516702_37);
-if (True == _3517700_37) {
-Obj _3517701_37 = PRIM_CAR(_3516702_37);
-Obj f = _3517701_37;
-Obj _3517702_37 = PRIM_CDR(_3516702_37);
-Obj args = _3517702_37;
+Obj _3517770_37 = PRIM_ISCONS(_3516772_37);
+if (True == _3517770_37) {
+Obj _3517771_37 = PRIM_CAR(_3516772_37);
+Obj f = _3517771_37;
+Obj _3517772_37 = PRIM_CDR(_3516772_37);
+Obj args = _3517772_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516703_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516704_37, _3516705_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516773_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516774_37, _3516775_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5055,9 +5135,9 @@ case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517703_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3517773_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517703_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3517773_37, conts2);
 return;
 }
 }
@@ -5067,33 +5147,33 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516696_37 = R[1];
-Obj _3516697_37 = R[2];
-Obj _3516698_37 = R[3];
-Obj _3516772_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516696_37, _3516697_37, _3516698_37);
-Obj _3517696_37 = primIsSymbol(_3516696_37);
-if (True == _3517696_37) {
+Obj _3516766_37 = R[1];
+Obj _3516767_37 = R[2];
+Obj _3516768_37 = R[3];
+Obj _3516842_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516766_37, _3516767_37, _3516768_37);
+Obj _3517766_37 = primIsSymbol(_3516766_37);
+if (True == _3517766_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, _3516842_37, True);
 return;
 } else {
-R[1] = _3516772_37;
+R[1] = _3516842_37;
 saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516696_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516766_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517697_37= co->res;
-Obj _3516772_37 = R[1];
-if (True == _3517697_37) {
+Obj _3517767_37= co->res;
+Obj _3516842_37 = R[1];
+if (True == _3517767_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, True);
+coraCall1(co, _3516842_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516772_37, False);
+coraCall1(co, _3516842_37, False);
 return;
 }
 }
@@ -5104,63 +5184,63 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516773_37 = R[1];
-if (True == _3516773_37) {
+Obj _3516843_37 = R[1];
+if (True == _3516843_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516700_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517672_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517672_37) {
-Obj _3517673_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517674_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517673_37);
-if (True == _3517674_37) {
-Obj _3517675_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517676_37 = PRIM_ISCONS(_3517675_37);
-if (True == _3517676_37) {
-Obj _3517677_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517678_37 = PRIM_CAR(_3517677_37);
-Obj exp = _3517678_37;
-Obj _3517679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517680_37 = PRIM_CDR(_3517679_37);
-Obj _3517681_37 = PRIM_ISCONS(_3517680_37);
-if (True == _3517681_37) {
-Obj _3517682_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517683_37 = PRIM_CDR(_3517682_37);
-Obj _3517684_37 = PRIM_CAR(_3517683_37);
-Obj cont = _3517684_37;
-Obj _3517685_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517686_37 = PRIM_CDR(_3517685_37);
-Obj _3517687_37 = PRIM_CDR(_3517686_37);
-Obj _3517688_37 = PRIM_EQ(Nil, _3517687_37);
-if (True == _3517688_37) {
+Obj _3516770_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517742_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517742_37) {
+Obj _3517743_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517744_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517743_37);
+if (True == _3517744_37) {
+Obj _3517745_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517746_37 = PRIM_ISCONS(_3517745_37);
+if (True == _3517746_37) {
+Obj _3517747_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517748_37 = PRIM_CAR(_3517747_37);
+Obj exp = _3517748_37;
+Obj _3517749_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517750_37 = PRIM_CDR(_3517749_37);
+Obj _3517751_37 = PRIM_ISCONS(_3517750_37);
+if (True == _3517751_37) {
+Obj _3517752_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517753_37 = PRIM_CDR(_3517752_37);
+Obj _3517754_37 = PRIM_CAR(_3517753_37);
+Obj cont = _3517754_37;
+Obj _3517755_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517756_37 = PRIM_CDR(_3517755_37);
+Obj _3517757_37 = PRIM_CDR(_3517756_37);
+Obj _3517758_37 = PRIM_EQ(Nil, _3517757_37);
+if (True == _3517758_37) {
 co->ctx.sp = R;
 coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), exp));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3516770_37);
 return;
 }
 }
@@ -5182,25 +5262,25 @@ return;
 }
 case 1:
 {
-Obj _3517690_37= co->res;
+Obj _3517760_37= co->res;
 Obj fvs = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517691_37 = PRIM_ADD(_3517690_37, MAKE_NUMBER(1));
-Obj _3517692_37 = makeCons(co->gc, _3517691_37, fvs);
-Obj _3517693_37 = makeCons(co->gc, closureRef(R[0], 1), _3517692_37);
-Obj _3517694_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517693_37);
-Obj _3517695_37 = makeCons(co->gc, cont1, conts1);
+Obj _3517761_37 = PRIM_ADD(_3517760_37, MAKE_NUMBER(1));
+Obj _3517762_37 = makeCons(co->gc, _3517761_37, fvs);
+Obj _3517763_37 = makeCons(co->gc, closureRef(R[0], 1), _3517762_37);
+Obj _3517764_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517763_37);
+Obj _3517765_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517694_37, _3517695_37);
+coraCall2(co, closureRef(R[0], 0), _3517764_37, _3517765_37);
 return;
 }
 case 2:
 {
-Obj _3517689_37= co->res;
+Obj _3517759_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517689_37;
+Obj fvs = _3517759_37;
 R[1] = fvs;
 R[2] = cont1;
 R[3] = conts1;
@@ -5215,15 +5295,15 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517668_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517668_37) {
-Obj _3517669_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517669_37;
-Obj _3517670_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517670_37;
-Obj _3517671_37 = makeCons(co->gc, f, args);
+Obj _3517738_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517738_37) {
+Obj _3517739_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517739_37;
+Obj _3517740_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517740_37;
+Obj _3517741_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517671_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517741_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5238,90 +5318,90 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = R[1];
-Obj _3516689_37 = R[2];
-R[1] = _3516689_37;
-R[2] = _3516688_37;
+Obj _3516758_37 = R[1];
+Obj _3516759_37 = R[2];
+R[1] = _3516759_37;
+R[2] = _3516758_37;
 saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516689_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516759_37);
 return;
 }
 case 1:
 {
-Obj _3517663_37= co->res;
+Obj _3517733_37= co->res;
 Obj args = R[1];
-Obj _3517664_37 = makeCons(co->gc, _3517663_37, Nil);
-Obj _3517665_37 = makeCons(co->gc, args, _3517664_37);
-Obj _3517666_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517665_37);
-coraReturn(co, _3517666_37);
+Obj _3517734_37 = makeCons(co->gc, _3517733_37, Nil);
+Obj _3517735_37 = makeCons(co->gc, args, _3517734_37);
+Obj _3517736_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517735_37);
+coraReturn(co, _3517736_37);
 return;
 }
 case 2:
 {
-Obj _3517591_37= co->res;
-Obj _3516689_37 = R[1];
-Obj _3516688_37 = R[2];
-if (True == _3517591_37) {
-coraReturn(co, _3516689_37);
-return;
-} else {
-Obj _3517592_37 = primIsSymbol(_3516689_37);
-if (True == _3517592_37) {
-coraReturn(co, _3516689_37);
+Obj _3517661_37= co->res;
+Obj _3516759_37 = R[1];
+Obj _3516758_37 = R[2];
+if (True == _3517661_37) {
+coraReturn(co, _3516759_37);
 return;
 } else {
-Obj _3516692_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516689_37, _3516688_37);
-Obj _3517646_37 = PRIM_ISCONS(_3516689_37);
-if (True == _3517646_37) {
-Obj _3517647_37 = PRIM_CAR(_3516689_37);
-Obj _3517648_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517647_37);
-if (True == _3517648_37) {
-Obj _3517649_37 = PRIM_CDR(_3516689_37);
-Obj _3517650_37 = PRIM_ISCONS(_3517649_37);
-if (True == _3517650_37) {
-Obj _3517651_37 = PRIM_CDR(_3516689_37);
-Obj _3517652_37 = PRIM_CAR(_3517651_37);
-Obj args = _3517652_37;
-Obj _3517653_37 = PRIM_CDR(_3516689_37);
-Obj _3517654_37 = PRIM_CDR(_3517653_37);
-Obj _3517655_37 = PRIM_ISCONS(_3517654_37);
-if (True == _3517655_37) {
-Obj _3517656_37 = PRIM_CDR(_3516689_37);
-Obj _3517657_37 = PRIM_CDR(_3517656_37);
-Obj _3517658_37 = PRIM_CAR(_3517657_37);
-Obj body = _3517658_37;
-Obj _3517659_37 = PRIM_CDR(_3516689_37);
-Obj _3517660_37 = PRIM_CDR(_3517659_37);
-Obj _3517661_37 = PRIM_CDR(_3517660_37);
-Obj _3517662_37 = PRIM_EQ(Nil, _3517661_37);
+Obj _3517662_37 = primIsSymbol(_3516759_37);
 if (True == _3517662_37) {
+coraReturn(co, _3516759_37);
+return;
+} else {
+Obj _3516762_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516759_37, _3516758_37);
+Obj _3517716_37 = PRIM_ISCONS(_3516759_37);
+if (True == _3517716_37) {
+Obj _3517717_37 = PRIM_CAR(_3516759_37);
+Obj _3517718_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517717_37);
+if (True == _3517718_37) {
+Obj _3517719_37 = PRIM_CDR(_3516759_37);
+Obj _3517720_37 = PRIM_ISCONS(_3517719_37);
+if (True == _3517720_37) {
+Obj _3517721_37 = PRIM_CDR(_3516759_37);
+Obj _3517722_37 = PRIM_CAR(_3517721_37);
+Obj args = _3517722_37;
+Obj _3517723_37 = PRIM_CDR(_3516759_37);
+Obj _3517724_37 = PRIM_CDR(_3517723_37);
+Obj _3517725_37 = PRIM_ISCONS(_3517724_37);
+if (True == _3517725_37) {
+Obj _3517726_37 = PRIM_CDR(_3516759_37);
+Obj _3517727_37 = PRIM_CDR(_3517726_37);
+Obj _3517728_37 = PRIM_CAR(_3517727_37);
+Obj body = _3517728_37;
+Obj _3517729_37 = PRIM_CDR(_3516759_37);
+Obj _3517730_37 = PRIM_CDR(_3517729_37);
+Obj _3517731_37 = PRIM_CDR(_3517730_37);
+Obj _3517732_37 = PRIM_EQ(Nil, _3517731_37);
+if (True == _3517732_37) {
 R[1] = args;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516688_37, body);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516758_37, body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516692_37);
+coraCall0(co, _3516762_37);
 return;
 }
 }
@@ -5334,31 +5414,31 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516693_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517621_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517621_37) {
-Obj _3517622_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517623_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517622_37);
-if (True == _3517623_37) {
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = PRIM_ISCONS(_3517624_37);
-if (True == _3517625_37) {
-Obj _3517626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517627_37 = PRIM_CAR(_3517626_37);
-Obj val = _3517627_37;
-Obj _3517628_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517629_37 = PRIM_CDR(_3517628_37);
-Obj _3517630_37 = PRIM_ISCONS(_3517629_37);
-if (True == _3517630_37) {
-Obj _3517631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517632_37 = PRIM_CDR(_3517631_37);
-Obj _3517633_37 = PRIM_CAR(_3517632_37);
-Obj body = _3517633_37;
-Obj _3517634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517635_37 = PRIM_CDR(_3517634_37);
-Obj _3517636_37 = PRIM_CDR(_3517635_37);
-Obj _3517637_37 = PRIM_EQ(Nil, _3517636_37);
-if (True == _3517637_37) {
+Obj _3516763_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517691_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517691_37) {
+Obj _3517692_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517693_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517692_37);
+if (True == _3517693_37) {
+Obj _3517694_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517695_37 = PRIM_ISCONS(_3517694_37);
+if (True == _3517695_37) {
+Obj _3517696_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517697_37 = PRIM_CAR(_3517696_37);
+Obj val = _3517697_37;
+Obj _3517698_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517699_37 = PRIM_CDR(_3517698_37);
+Obj _3517700_37 = PRIM_ISCONS(_3517699_37);
+if (True == _3517700_37) {
+Obj _3517701_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517702_37 = PRIM_CDR(_3517701_37);
+Obj _3517703_37 = PRIM_CAR(_3517702_37);
+Obj body = _3517703_37;
+Obj _3517704_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517705_37 = PRIM_CDR(_3517704_37);
+Obj _3517706_37 = PRIM_CDR(_3517705_37);
+Obj _3517707_37 = PRIM_EQ(Nil, _3517706_37);
+if (True == _3517707_37) {
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun60, 5, R);
@@ -5366,48 +5446,48 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516763_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516693_37);
+coraCall0(co, _3516763_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517642_37= co->res;
+Obj _3517712_37= co->res;
 Obj fvs2 = R[1];
 Obj val = R[2];
-Obj _3517643_37 = makeCons(co->gc, _3517642_37, fvs2);
-Obj _3517644_37 = makeCons(co->gc, val, _3517643_37);
-Obj _3517645_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517644_37);
-coraReturn(co, _3517645_37);
+Obj _3517713_37 = makeCons(co->gc, _3517712_37, fvs2);
+Obj _3517714_37 = makeCons(co->gc, val, _3517713_37);
+Obj _3517715_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517714_37);
+coraReturn(co, _3517715_37);
 return;
 }
 case 2:
 {
-Obj _3517641_37= co->res;
+Obj _3517711_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
-Obj fvs2 = _3517641_37;
+Obj fvs2 = _3517711_37;
 R[1] = fvs2;
 R[2] = val;
 saveCont(co, clofun60, 1, R);
@@ -5416,7 +5496,7 @@ return;
 }
 case 3:
 {
-Obj _3517640_37= co->res;
+Obj _3517710_37= co->res;
 Obj fvs1 = R[1];
 Obj body = R[2];
 Obj val = R[3];
@@ -5424,15 +5504,15 @@ R[1] = fvs1;
 R[2] = body;
 R[3] = val;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517640_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517710_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517639_37= co->res;
+Obj _3517709_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
-Obj fvs1 = _3517639_37;
+Obj fvs1 = _3517709_37;
 R[1] = fvs1;
 R[2] = body;
 R[3] = val;
@@ -5442,13 +5522,13 @@ return;
 }
 case 5:
 {
-Obj _3517638_37= co->res;
+Obj _3517708_37= co->res;
 Obj body = R[1];
 Obj val = R[2];
 R[1] = body;
 R[2] = val;
 saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517638_37, val);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517708_37, val);
 return;
 }
 }
@@ -5458,31 +5538,31 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516694_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517598_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517598_37) {
-Obj _3517599_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517600_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517599_37);
-if (True == _3517600_37) {
-Obj _3517601_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517602_37 = PRIM_ISCONS(_3517601_37);
-if (True == _3517602_37) {
-Obj _3517603_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517604_37 = PRIM_CAR(_3517603_37);
-Obj exp = _3517604_37;
-Obj _3517605_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517606_37 = PRIM_CDR(_3517605_37);
-Obj _3517607_37 = PRIM_ISCONS(_3517606_37);
-if (True == _3517607_37) {
-Obj _3517608_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517609_37 = PRIM_CDR(_3517608_37);
-Obj _3517610_37 = PRIM_CAR(_3517609_37);
-Obj cont = _3517610_37;
-Obj _3517611_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517612_37 = PRIM_CDR(_3517611_37);
-Obj _3517613_37 = PRIM_CDR(_3517612_37);
-Obj _3517614_37 = PRIM_EQ(Nil, _3517613_37);
-if (True == _3517614_37) {
+Obj _3516764_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517668_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517668_37) {
+Obj _3517669_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517670_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517669_37);
+if (True == _3517670_37) {
+Obj _3517671_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517672_37 = PRIM_ISCONS(_3517671_37);
+if (True == _3517672_37) {
+Obj _3517673_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517674_37 = PRIM_CAR(_3517673_37);
+Obj exp = _3517674_37;
+Obj _3517675_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517676_37 = PRIM_CDR(_3517675_37);
+Obj _3517677_37 = PRIM_ISCONS(_3517676_37);
+if (True == _3517677_37) {
+Obj _3517678_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517679_37 = PRIM_CDR(_3517678_37);
+Obj _3517680_37 = PRIM_CAR(_3517679_37);
+Obj cont = _3517680_37;
+Obj _3517681_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517682_37 = PRIM_CDR(_3517681_37);
+Obj _3517683_37 = PRIM_CDR(_3517682_37);
+Obj _3517684_37 = PRIM_EQ(Nil, _3517683_37);
+if (True == _3517684_37) {
 R[1] = exp;
 R[2] = cont;
 saveCont(co, clofun59, 3, R);
@@ -5490,57 +5570,57 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1))
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516694_37);
+coraCall0(co, _3516764_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517617_37= co->res;
-Obj _3517616_37 = R[1];
-Obj _3517618_37 = makeCons(co->gc, _3517617_37, Nil);
-Obj _3517619_37 = makeCons(co->gc, _3517616_37, _3517618_37);
-Obj _3517620_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517619_37);
-coraReturn(co, _3517620_37);
+Obj _3517687_37= co->res;
+Obj _3517686_37 = R[1];
+Obj _3517688_37 = makeCons(co->gc, _3517687_37, Nil);
+Obj _3517689_37 = makeCons(co->gc, _3517686_37, _3517688_37);
+Obj _3517690_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517689_37);
+coraReturn(co, _3517690_37);
 return;
 }
 case 2:
 {
-Obj _3517616_37= co->res;
+Obj _3517686_37= co->res;
 Obj cont = R[1];
-R[1] = _3517616_37;
+R[1] = _3517686_37;
 saveCont(co, clofun59, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
 return;
 }
 case 3:
 {
-Obj _3517615_37= co->res;
+Obj _3517685_37= co->res;
 Obj exp = R[1];
 Obj cont = R[2];
 R[1] = cont;
 saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517615_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517685_37, exp);
 return;
 }
 }
@@ -5550,12 +5630,12 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517593_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517593_37) {
-Obj _3517594_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517594_37;
-Obj _3517595_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517595_37;
+Obj _3517663_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517663_37) {
+Obj _3517664_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517664_37;
+Obj _3517665_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517665_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun58, 1, R);
@@ -5569,12 +5649,12 @@ return;
 }
 case 1:
 {
-Obj _3517596_37= co->res;
+Obj _3517666_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517597_37 = makeCons(co->gc, f, args);
+Obj _3517667_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517596_37, _3517597_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517666_37, _3517667_37);
 return;
 }
 }
@@ -5584,24 +5664,24 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516683_37 = R[1];
-Obj _3516684_37 = R[2];
-Obj _3516685_37 = R[3];
-Obj _3517568_37 = PRIM_EQ(Nil, _3516683_37);
-if (True == _3517568_37) {
-R[1] = _3516685_37;
+Obj _3516753_37 = R[1];
+Obj _3516754_37 = R[2];
+Obj _3516755_37 = R[3];
+Obj _3517638_37 = PRIM_EQ(Nil, _3516753_37);
+if (True == _3517638_37) {
+R[1] = _3516755_37;
 saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516684_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516754_37);
 return;
 } else {
-Obj _3517586_37 = PRIM_ISCONS(_3516683_37);
-if (True == _3517586_37) {
-Obj _3517587_37 = PRIM_CAR(_3516683_37);
-Obj hd = _3517587_37;
-Obj _3517588_37 = PRIM_CDR(_3516683_37);
-Obj tl = _3517588_37;
+Obj _3517656_37 = PRIM_ISCONS(_3516753_37);
+if (True == _3517656_37) {
+Obj _3517657_37 = PRIM_CAR(_3516753_37);
+Obj hd = _3517657_37;
+Obj _3517658_37 = PRIM_CDR(_3516753_37);
+Obj tl = _3517658_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516684_37, _3516685_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516754_37, _3516755_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5612,46 +5692,46 @@ return;
 }
 case 1:
 {
-Obj _3517584_37= co->res;
-Obj _3516770_37 = R[1];
-Obj _3517585_37 = PRIM_EQ(_3517584_37, getBinding(co, packageID, 90).name);
-if (True == _3517585_37) {
+Obj _3517654_37= co->res;
+Obj _3516840_37 = R[1];
+Obj _3517655_37 = PRIM_EQ(_3517654_37, getBinding(co, packageID, 90).name);
+if (True == _3517655_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, True);
+coraCall1(co, _3516840_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, _3516840_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517583_37= co->res;
+Obj _3517653_37= co->res;
 Obj exp = R[1];
-Obj _3516770_37 = R[2];
-if (True == _3517583_37) {
-R[1] = _3516770_37;
+Obj _3516840_37 = R[2];
+if (True == _3517653_37) {
+R[1] = _3516840_37;
 saveCont(co, clofun57, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516770_37, False);
+coraCall1(co, _3516840_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517569_37= co->res;
-Obj _3516685_37 = R[1];
-Obj exp = _3517569_37;
-Obj _3516770_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516685_37);
-Obj _3517582_37 = PRIM_CAR(exp);
+Obj _3517639_37= co->res;
+Obj _3516755_37 = R[1];
+Obj exp = _3517639_37;
+Obj _3516840_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516755_37);
+Obj _3517652_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3516770_37;
+R[2] = _3516840_37;
 saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517582_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517652_37);
 return;
 }
 }
@@ -5662,9 +5742,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517589_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3517659_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517589_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517659_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5674,23 +5754,23 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516771_37 = R[1];
-if (True == _3516771_37) {
+Obj _3516841_37 = R[1];
+if (True == _3516841_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517570_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517570_37) {
-Obj _3517571_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517572_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517571_37);
-coraReturn(co, _3517572_37);
+Obj _3517640_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == _3517640_37) {
+Obj _3517641_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517642_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517641_37);
+coraReturn(co, _3517642_37);
 return;
 } else {
-Obj _3517573_37 = primGenSym(co);
-Obj val = _3517573_37;
-Obj _3517574_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517574_37;
+Obj _3517643_37 = primGenSym(co);
+Obj val = _3517643_37;
+Obj _3517644_37 = makeCons(co->gc, val, Nil);
+R[1] = _3517644_37;
 saveCont(co, clofun55, 1, R);
 coraCall1(co, closureRef(R[0], 1), val);
 return;
@@ -5699,15 +5779,15 @@ return;
 }
 case 1:
 {
-Obj _3517575_37= co->res;
-Obj _3517574_37 = R[1];
-Obj _3517576_37 = makeCons(co->gc, _3517575_37, Nil);
-Obj _3517577_37 = makeCons(co->gc, _3517574_37, _3517576_37);
-Obj _3517578_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517577_37);
-Obj _3517579_37 = makeCons(co->gc, _3517578_37, Nil);
-Obj _3517580_37 = makeCons(co->gc, closureRef(R[0], 0), _3517579_37);
-Obj _3517581_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517580_37);
-coraReturn(co, _3517581_37);
+Obj _3517645_37= co->res;
+Obj _3517644_37 = R[1];
+Obj _3517646_37 = makeCons(co->gc, _3517645_37, Nil);
+Obj _3517647_37 = makeCons(co->gc, _3517644_37, _3517646_37);
+Obj _3517648_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517647_37);
+Obj _3517649_37 = makeCons(co->gc, _3517648_37, Nil);
+Obj _3517650_37 = makeCons(co->gc, closureRef(R[0], 0), _3517649_37);
+Obj _3517651_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517650_37);
+coraReturn(co, _3517651_37);
 return;
 }
 }
@@ -5717,32 +5797,32 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516674_37 = R[1];
-Obj _3516675_37 = R[2];
-Obj _3516768_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516674_37, _3516675_37);
-Obj _3517565_37 = primIsSymbol(_3516674_37);
-if (True == _3517565_37) {
+Obj _3516744_37 = R[1];
+Obj _3516745_37 = R[2];
+Obj _3516838_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516744_37, _3516745_37);
+Obj _3517635_37 = primIsSymbol(_3516744_37);
+if (True == _3517635_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, _3516838_37, True);
 return;
 } else {
-R[1] = _3516768_37;
+R[1] = _3516838_37;
 saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516674_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516744_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517566_37= co->res;
-Obj _3516768_37 = R[1];
-if (True == _3517566_37) {
+Obj _3517636_37= co->res;
+Obj _3516838_37 = R[1];
+if (True == _3517636_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, True);
+coraCall1(co, _3516838_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516768_37, False);
+coraCall1(co, _3516838_37, False);
 return;
 }
 }
@@ -5753,8 +5833,8 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516769_37 = R[1];
-if (True == _3516769_37) {
+Obj _3516839_37 = R[1];
+if (True == _3516839_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5766,78 +5846,78 @@ return;
 }
 case 1:
 {
-Obj _3517431_37= co->res;
-if (True == _3517431_37) {
+Obj _3517501_37= co->res;
+if (True == _3517501_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516678_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517533_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517533_37) {
-Obj _3517534_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517535_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517534_37);
-if (True == _3517535_37) {
-Obj _3517536_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517537_37 = PRIM_ISCONS(_3517536_37);
-if (True == _3517537_37) {
-Obj _3517538_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517539_37 = PRIM_CAR(_3517538_37);
-Obj a = _3517539_37;
-Obj _3517540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517541_37 = PRIM_CDR(_3517540_37);
-Obj _3517542_37 = PRIM_ISCONS(_3517541_37);
-if (True == _3517542_37) {
-Obj _3517543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517544_37 = PRIM_CDR(_3517543_37);
-Obj _3517545_37 = PRIM_CAR(_3517544_37);
-Obj b = _3517545_37;
-Obj _3517546_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517547_37 = PRIM_CDR(_3517546_37);
-Obj _3517548_37 = PRIM_CDR(_3517547_37);
-Obj _3517549_37 = PRIM_ISCONS(_3517548_37);
-if (True == _3517549_37) {
-Obj _3517550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517551_37 = PRIM_CDR(_3517550_37);
-Obj _3517552_37 = PRIM_CDR(_3517551_37);
-Obj _3517553_37 = PRIM_CAR(_3517552_37);
-Obj c = _3517553_37;
-Obj _3517554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517555_37 = PRIM_CDR(_3517554_37);
-Obj _3517556_37 = PRIM_CDR(_3517555_37);
-Obj _3517557_37 = PRIM_CDR(_3517556_37);
-Obj _3517558_37 = PRIM_EQ(Nil, _3517557_37);
-if (True == _3517558_37) {
+Obj _3516748_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517603_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517603_37) {
+Obj _3517604_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517605_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517604_37);
+if (True == _3517605_37) {
+Obj _3517606_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517607_37 = PRIM_ISCONS(_3517606_37);
+if (True == _3517607_37) {
+Obj _3517608_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517609_37 = PRIM_CAR(_3517608_37);
+Obj a = _3517609_37;
+Obj _3517610_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517611_37 = PRIM_CDR(_3517610_37);
+Obj _3517612_37 = PRIM_ISCONS(_3517611_37);
+if (True == _3517612_37) {
+Obj _3517613_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517614_37 = PRIM_CDR(_3517613_37);
+Obj _3517615_37 = PRIM_CAR(_3517614_37);
+Obj b = _3517615_37;
+Obj _3517616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517617_37 = PRIM_CDR(_3517616_37);
+Obj _3517618_37 = PRIM_CDR(_3517617_37);
+Obj _3517619_37 = PRIM_ISCONS(_3517618_37);
+if (True == _3517619_37) {
+Obj _3517620_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517621_37 = PRIM_CDR(_3517620_37);
+Obj _3517622_37 = PRIM_CDR(_3517621_37);
+Obj _3517623_37 = PRIM_CAR(_3517622_37);
+Obj c = _3517623_37;
+Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517625_37 = PRIM_CDR(_3517624_37);
+Obj _3517626_37 = PRIM_CDR(_3517625_37);
+Obj _3517627_37 = PRIM_CDR(_3517626_37);
+Obj _3517628_37 = PRIM_EQ(Nil, _3517627_37);
+if (True == _3517628_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun52, 1, 3, b, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516748_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516678_37);
+coraCall0(co, _3516748_37);
 return;
 }
 }
@@ -5857,21 +5937,21 @@ return;
 }
 case 1:
 {
-Obj _3517560_37= co->res;
-Obj _3517559_37 = R[1];
+Obj _3517630_37= co->res;
+Obj _3517629_37 = R[1];
 Obj ra = R[2];
-Obj _3517561_37 = makeCons(co->gc, _3517560_37, Nil);
-Obj _3517562_37 = makeCons(co->gc, _3517559_37, _3517561_37);
-Obj _3517563_37 = makeCons(co->gc, ra, _3517562_37);
-Obj _3517564_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517563_37);
-coraReturn(co, _3517564_37);
+Obj _3517631_37 = makeCons(co->gc, _3517630_37, Nil);
+Obj _3517632_37 = makeCons(co->gc, _3517629_37, _3517631_37);
+Obj _3517633_37 = makeCons(co->gc, ra, _3517632_37);
+Obj _3517634_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517633_37);
+coraReturn(co, _3517634_37);
 return;
 }
 case 2:
 {
-Obj _3517559_37= co->res;
+Obj _3517629_37= co->res;
 Obj ra = R[1];
-R[1] = _3517559_37;
+R[1] = _3517629_37;
 R[2] = ra;
 saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -5884,57 +5964,57 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516679_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517511_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517511_37) {
-Obj _3517512_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517513_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517512_37);
-if (True == _3517513_37) {
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_ISCONS(_3517514_37);
-if (True == _3517515_37) {
-Obj _3517516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517517_37 = PRIM_CAR(_3517516_37);
-Obj a = _3517517_37;
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517519_37 = PRIM_CDR(_3517518_37);
-Obj _3517520_37 = PRIM_ISCONS(_3517519_37);
-if (True == _3517520_37) {
-Obj _3517521_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517522_37 = PRIM_CDR(_3517521_37);
-Obj _3517523_37 = PRIM_CAR(_3517522_37);
-Obj b = _3517523_37;
-Obj _3517524_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517525_37 = PRIM_CDR(_3517524_37);
-Obj _3517526_37 = PRIM_CDR(_3517525_37);
-Obj _3517527_37 = PRIM_EQ(Nil, _3517526_37);
-if (True == _3517527_37) {
+Obj _3516749_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517581_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517581_37) {
+Obj _3517582_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517583_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517582_37);
+if (True == _3517583_37) {
+Obj _3517584_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517585_37 = PRIM_ISCONS(_3517584_37);
+if (True == _3517585_37) {
+Obj _3517586_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517587_37 = PRIM_CAR(_3517586_37);
+Obj a = _3517587_37;
+Obj _3517588_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517589_37 = PRIM_CDR(_3517588_37);
+Obj _3517590_37 = PRIM_ISCONS(_3517589_37);
+if (True == _3517590_37) {
+Obj _3517591_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517592_37 = PRIM_CDR(_3517591_37);
+Obj _3517593_37 = PRIM_CAR(_3517592_37);
+Obj b = _3517593_37;
+Obj _3517594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517595_37 = PRIM_CDR(_3517594_37);
+Obj _3517596_37 = PRIM_CDR(_3517595_37);
+Obj _3517597_37 = PRIM_EQ(Nil, _3517596_37);
+if (True == _3517597_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun50, 1, 2, b, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516749_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516679_37);
+coraCall0(co, _3516749_37);
 return;
 }
 }
@@ -5946,8 +6026,8 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517528_37 = primIsSymbol(ra);
-if (True == _3517528_37) {
+Obj _3517598_37 = primIsSymbol(ra);
+if (True == _3517598_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -5960,12 +6040,12 @@ return;
 }
 case 1:
 {
-Obj _3517529_37= co->res;
+Obj _3517599_37= co->res;
 Obj ra = R[1];
-Obj _3517530_37 = makeCons(co->gc, _3517529_37, Nil);
-Obj _3517531_37 = makeCons(co->gc, ra, _3517530_37);
-Obj _3517532_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517531_37);
-coraReturn(co, _3517532_37);
+Obj _3517600_37 = makeCons(co->gc, _3517599_37, Nil);
+Obj _3517601_37 = makeCons(co->gc, ra, _3517600_37);
+Obj _3517602_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517601_37);
+coraReturn(co, _3517602_37);
 return;
 }
 }
@@ -5975,73 +6055,73 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516680_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517480_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517480_37) {
-Obj _3517481_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517482_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517481_37);
-if (True == _3517482_37) {
-Obj _3517483_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517484_37 = PRIM_ISCONS(_3517483_37);
-if (True == _3517484_37) {
-Obj _3517485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517486_37 = PRIM_CAR(_3517485_37);
-Obj a = _3517486_37;
-Obj _3517487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517488_37 = PRIM_CDR(_3517487_37);
-Obj _3517489_37 = PRIM_ISCONS(_3517488_37);
-if (True == _3517489_37) {
-Obj _3517490_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517491_37 = PRIM_CDR(_3517490_37);
-Obj _3517492_37 = PRIM_CAR(_3517491_37);
-Obj b = _3517492_37;
-Obj _3517493_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517494_37 = PRIM_CDR(_3517493_37);
-Obj _3517495_37 = PRIM_CDR(_3517494_37);
-Obj _3517496_37 = PRIM_ISCONS(_3517495_37);
-if (True == _3517496_37) {
-Obj _3517497_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517498_37 = PRIM_CDR(_3517497_37);
-Obj _3517499_37 = PRIM_CDR(_3517498_37);
-Obj _3517500_37 = PRIM_CAR(_3517499_37);
-Obj c = _3517500_37;
-Obj _3517501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517502_37 = PRIM_CDR(_3517501_37);
-Obj _3517503_37 = PRIM_CDR(_3517502_37);
-Obj _3517504_37 = PRIM_CDR(_3517503_37);
-Obj _3517505_37 = PRIM_EQ(Nil, _3517504_37);
-if (True == _3517505_37) {
+Obj _3516750_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517550_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517550_37) {
+Obj _3517551_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517552_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517551_37);
+if (True == _3517552_37) {
+Obj _3517553_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517554_37 = PRIM_ISCONS(_3517553_37);
+if (True == _3517554_37) {
+Obj _3517555_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517556_37 = PRIM_CAR(_3517555_37);
+Obj a = _3517556_37;
+Obj _3517557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517558_37 = PRIM_CDR(_3517557_37);
+Obj _3517559_37 = PRIM_ISCONS(_3517558_37);
+if (True == _3517559_37) {
+Obj _3517560_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517561_37 = PRIM_CDR(_3517560_37);
+Obj _3517562_37 = PRIM_CAR(_3517561_37);
+Obj b = _3517562_37;
+Obj _3517563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517564_37 = PRIM_CDR(_3517563_37);
+Obj _3517565_37 = PRIM_CDR(_3517564_37);
+Obj _3517566_37 = PRIM_ISCONS(_3517565_37);
+if (True == _3517566_37) {
+Obj _3517567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517568_37 = PRIM_CDR(_3517567_37);
+Obj _3517569_37 = PRIM_CDR(_3517568_37);
+Obj _3517570_37 = PRIM_CAR(_3517569_37);
+Obj c = _3517570_37;
+Obj _3517571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517572_37 = PRIM_CDR(_3517571_37);
+Obj _3517573_37 = PRIM_CDR(_3517572_37);
+Obj _3517574_37 = PRIM_CDR(_3517573_37);
+Obj _3517575_37 = PRIM_EQ(Nil, _3517574_37);
+if (True == _3517575_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun48, 1, 3, a, c, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516750_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516680_37);
+coraCall0(co, _3516750_37);
 return;
 }
 }
@@ -6060,13 +6140,13 @@ return;
 }
 case 1:
 {
-Obj _3517506_37= co->res;
+Obj _3517576_37= co->res;
 Obj rb = R[1];
-Obj _3517507_37 = makeCons(co->gc, _3517506_37, Nil);
-Obj _3517508_37 = makeCons(co->gc, rb, _3517507_37);
-Obj _3517509_37 = makeCons(co->gc, closureRef(R[0], 0), _3517508_37);
-Obj _3517510_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517509_37);
-coraReturn(co, _3517510_37);
+Obj _3517577_37 = makeCons(co->gc, _3517576_37, Nil);
+Obj _3517578_37 = makeCons(co->gc, rb, _3517577_37);
+Obj _3517579_37 = makeCons(co->gc, closureRef(R[0], 0), _3517578_37);
+Obj _3517580_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517579_37);
+coraReturn(co, _3517580_37);
 return;
 }
 }
@@ -6076,56 +6156,56 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516681_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517436_37) {
-Obj _3517437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517438_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517437_37);
-if (True == _3517438_37) {
-Obj _3517439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517440_37 = PRIM_ISCONS(_3517439_37);
-if (True == _3517440_37) {
-Obj _3517441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517442_37 = PRIM_CAR(_3517441_37);
-Obj _3517443_37 = PRIM_ISCONS(_3517442_37);
-if (True == _3517443_37) {
-Obj _3517444_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517445_37 = PRIM_CAR(_3517444_37);
-Obj _3517446_37 = PRIM_CAR(_3517445_37);
-Obj _3517447_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517446_37);
-if (True == _3517447_37) {
-Obj _3517448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517449_37 = PRIM_CAR(_3517448_37);
-Obj _3517450_37 = PRIM_CDR(_3517449_37);
-Obj _3517451_37 = PRIM_ISCONS(_3517450_37);
-if (True == _3517451_37) {
-Obj _3517452_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517453_37 = PRIM_CAR(_3517452_37);
-Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CAR(_3517454_37);
-Obj args = _3517455_37;
-Obj _3517456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517457_37 = PRIM_CAR(_3517456_37);
-Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_CDR(_3517458_37);
-Obj _3517460_37 = PRIM_ISCONS(_3517459_37);
-if (True == _3517460_37) {
-Obj _3517461_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517462_37 = PRIM_CAR(_3517461_37);
-Obj _3517463_37 = PRIM_CDR(_3517462_37);
-Obj _3517464_37 = PRIM_CDR(_3517463_37);
-Obj _3517465_37 = PRIM_CAR(_3517464_37);
-Obj body = _3517465_37;
-Obj _3517466_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517467_37 = PRIM_CAR(_3517466_37);
-Obj _3517468_37 = PRIM_CDR(_3517467_37);
-Obj _3517469_37 = PRIM_CDR(_3517468_37);
-Obj _3517470_37 = PRIM_CDR(_3517469_37);
-Obj _3517471_37 = PRIM_EQ(Nil, _3517470_37);
-if (True == _3517471_37) {
-Obj _3517472_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517473_37 = PRIM_CDR(_3517472_37);
-Obj frees = _3517473_37;
+Obj _3516751_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517506_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517506_37) {
+Obj _3517507_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517508_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517507_37);
+if (True == _3517508_37) {
+Obj _3517509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517510_37 = PRIM_ISCONS(_3517509_37);
+if (True == _3517510_37) {
+Obj _3517511_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517512_37 = PRIM_CAR(_3517511_37);
+Obj _3517513_37 = PRIM_ISCONS(_3517512_37);
+if (True == _3517513_37) {
+Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517515_37 = PRIM_CAR(_3517514_37);
+Obj _3517516_37 = PRIM_CAR(_3517515_37);
+Obj _3517517_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517516_37);
+if (True == _3517517_37) {
+Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517519_37 = PRIM_CAR(_3517518_37);
+Obj _3517520_37 = PRIM_CDR(_3517519_37);
+Obj _3517521_37 = PRIM_ISCONS(_3517520_37);
+if (True == _3517521_37) {
+Obj _3517522_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517523_37 = PRIM_CAR(_3517522_37);
+Obj _3517524_37 = PRIM_CDR(_3517523_37);
+Obj _3517525_37 = PRIM_CAR(_3517524_37);
+Obj args = _3517525_37;
+Obj _3517526_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517527_37 = PRIM_CAR(_3517526_37);
+Obj _3517528_37 = PRIM_CDR(_3517527_37);
+Obj _3517529_37 = PRIM_CDR(_3517528_37);
+Obj _3517530_37 = PRIM_ISCONS(_3517529_37);
+if (True == _3517530_37) {
+Obj _3517531_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517532_37 = PRIM_CAR(_3517531_37);
+Obj _3517533_37 = PRIM_CDR(_3517532_37);
+Obj _3517534_37 = PRIM_CDR(_3517533_37);
+Obj _3517535_37 = PRIM_CAR(_3517534_37);
+Obj body = _3517535_37;
+Obj _3517536_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517537_37 = PRIM_CAR(_3517536_37);
+Obj _3517538_37 = PRIM_CDR(_3517537_37);
+Obj _3517539_37 = PRIM_CDR(_3517538_37);
+Obj _3517540_37 = PRIM_CDR(_3517539_37);
+Obj _3517541_37 = PRIM_EQ(Nil, _3517540_37);
+if (True == _3517541_37) {
+Obj _3517542_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517543_37 = PRIM_CDR(_3517542_37);
+Obj frees = _3517543_37;
 R[1] = args;
 R[2] = frees;
 saveCont(co, clofun47, 1, R);
@@ -6133,57 +6213,57 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co,
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516681_37);
+coraCall0(co, _3516751_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517474_37= co->res;
+Obj _3517544_37= co->res;
 Obj args = R[1];
 Obj frees = R[2];
-Obj _3517475_37 = makeCons(co->gc, _3517474_37, Nil);
-Obj _3517476_37 = makeCons(co->gc, args, _3517475_37);
-Obj _3517477_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517476_37);
-Obj _3517478_37 = makeCons(co->gc, _3517477_37, frees);
-Obj _3517479_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517478_37);
+Obj _3517545_37 = makeCons(co->gc, _3517544_37, Nil);
+Obj _3517546_37 = makeCons(co->gc, args, _3517545_37);
+Obj _3517547_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517546_37);
+Obj _3517548_37 = makeCons(co->gc, _3517547_37, frees);
+Obj _3517549_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517548_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517479_37);
+coraCall1(co, closureRef(R[0], 1), _3517549_37);
 return;
 }
 }
@@ -6193,15 +6273,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517432_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517432_37) {
-Obj _3517433_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517433_37;
-Obj _3517434_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517434_37;
-Obj _3517435_37 = makeCons(co->gc, f, args);
+Obj _3517502_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517502_37) {
+Obj _3517503_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517503_37;
+Obj _3517504_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517504_37;
+Obj _3517505_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517435_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517505_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6217,9 +6297,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517428_37 = makeCons(co->gc, x, Nil);
-Obj _3517429_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517428_37);
-coraReturn(co, _3517429_37);
+Obj _3517498_37 = makeCons(co->gc, x, Nil);
+Obj _3517499_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517498_37);
+coraReturn(co, _3517499_37);
 return;
 }
 }
@@ -6229,73 +6309,73 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516667_37 = R[1];
-Obj _3516668_37 = R[2];
-R[1] = _3516668_37;
-R[2] = _3516667_37;
+Obj _3516737_37 = R[1];
+Obj _3516738_37 = R[2];
+R[1] = _3516738_37;
+R[2] = _3516737_37;
 saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516668_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516738_37);
 return;
 }
 case 1:
 {
-Obj _3517357_37= co->res;
-Obj _3516668_37 = R[1];
-Obj pos = _3517357_37;
-Obj _3517358_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517358_37) {
-coraReturn(co, _3516668_37);
+Obj _3517427_37= co->res;
+Obj _3516738_37 = R[1];
+Obj pos = _3517427_37;
+Obj _3517428_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
+if (True == _3517428_37) {
+coraReturn(co, _3516738_37);
 return;
 } else {
-Obj _3517359_37 = makeCons(co->gc, pos, Nil);
-Obj _3517360_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517359_37);
-coraReturn(co, _3517360_37);
+Obj _3517429_37 = makeCons(co->gc, pos, Nil);
+Obj _3517430_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517429_37);
+coraReturn(co, _3517430_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517424_37= co->res;
-Obj _3517422_37 = R[1];
-Obj _3517425_37 = makeCons(co->gc, _3517422_37, _3517424_37);
-Obj _3517426_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517425_37);
-coraReturn(co, _3517426_37);
+Obj _3517494_37= co->res;
+Obj _3517492_37 = R[1];
+Obj _3517495_37 = makeCons(co->gc, _3517492_37, _3517494_37);
+Obj _3517496_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517495_37);
+coraReturn(co, _3517496_37);
 return;
 }
 case 3:
 {
-Obj _3517423_37= co->res;
+Obj _3517493_37= co->res;
 Obj fvs1 = R[1];
-Obj _3517422_37 = R[2];
-R[1] = _3517422_37;
+Obj _3517492_37 = R[2];
+R[1] = _3517492_37;
 saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517423_37, fvs1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517493_37, fvs1);
 return;
 }
 case 4:
 {
-Obj _3517419_37= co->res;
+Obj _3517489_37= co->res;
 Obj args = R[1];
-Obj _3516667_37 = R[2];
+Obj _3516737_37 = R[2];
 Obj fvs1 = R[3];
-Obj _3517420_37 = makeCons(co->gc, _3517419_37, Nil);
-Obj _3517421_37 = makeCons(co->gc, args, _3517420_37);
-Obj _3517422_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517421_37);
+Obj _3517490_37 = makeCons(co->gc, _3517489_37, Nil);
+Obj _3517491_37 = makeCons(co->gc, args, _3517490_37);
+Obj _3517492_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517491_37);
 R[1] = fvs1;
-R[2] = _3517422_37;
+R[2] = _3517492_37;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516737_37);
 return;
 }
 case 5:
 {
-Obj _3517418_37= co->res;
+Obj _3517488_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
-Obj _3516667_37 = R[3];
-Obj fvs1 = _3517418_37;
+Obj _3516737_37 = R[3];
+Obj fvs1 = _3517488_37;
 R[1] = args;
-R[2] = _3516667_37;
+R[2] = _3516737_37;
 R[3] = fvs1;
 saveCont(co, clofun44, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
@@ -6303,77 +6383,77 @@ return;
 }
 case 6:
 {
-Obj _3517355_37= co->res;
-Obj _3516668_37 = R[1];
-Obj _3516667_37 = R[2];
-if (True == _3517355_37) {
-coraReturn(co, _3516668_37);
+Obj _3517425_37= co->res;
+Obj _3516738_37 = R[1];
+Obj _3516737_37 = R[2];
+if (True == _3517425_37) {
+coraReturn(co, _3516738_37);
 return;
 } else {
-Obj _3517356_37 = primIsSymbol(_3516668_37);
-if (True == _3517356_37) {
-R[1] = _3516668_37;
+Obj _3517426_37 = primIsSymbol(_3516738_37);
+if (True == _3517426_37) {
+R[1] = _3516738_37;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516668_37, _3516667_37);
-return;
-} else {
-Obj _3516671_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516668_37, _3516667_37);
-Obj _3517398_37 = PRIM_ISCONS(_3516668_37);
-if (True == _3517398_37) {
-Obj _3517399_37 = PRIM_CAR(_3516668_37);
-Obj _3517400_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517399_37);
-if (True == _3517400_37) {
-Obj _3517401_37 = PRIM_CDR(_3516668_37);
-Obj _3517402_37 = PRIM_ISCONS(_3517401_37);
-if (True == _3517402_37) {
-Obj _3517403_37 = PRIM_CDR(_3516668_37);
-Obj _3517404_37 = PRIM_CAR(_3517403_37);
-Obj args = _3517404_37;
-Obj _3517405_37 = PRIM_CDR(_3516668_37);
-Obj _3517406_37 = PRIM_CDR(_3517405_37);
-Obj _3517407_37 = PRIM_ISCONS(_3517406_37);
-if (True == _3517407_37) {
-Obj _3517408_37 = PRIM_CDR(_3516668_37);
-Obj _3517409_37 = PRIM_CDR(_3517408_37);
-Obj _3517410_37 = PRIM_CAR(_3517409_37);
-Obj body = _3517410_37;
-Obj _3517411_37 = PRIM_CDR(_3516668_37);
-Obj _3517412_37 = PRIM_CDR(_3517411_37);
-Obj _3517413_37 = PRIM_CDR(_3517412_37);
-Obj _3517414_37 = PRIM_EQ(Nil, _3517413_37);
-if (True == _3517414_37) {
-Obj _3517415_37 = makeCons(co->gc, body, Nil);
-Obj _3517416_37 = makeCons(co->gc, args, _3517415_37);
-Obj _3517417_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517416_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516738_37, _3516737_37);
+return;
+} else {
+Obj _3516741_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516738_37, _3516737_37);
+Obj _3517468_37 = PRIM_ISCONS(_3516738_37);
+if (True == _3517468_37) {
+Obj _3517469_37 = PRIM_CAR(_3516738_37);
+Obj _3517470_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517469_37);
+if (True == _3517470_37) {
+Obj _3517471_37 = PRIM_CDR(_3516738_37);
+Obj _3517472_37 = PRIM_ISCONS(_3517471_37);
+if (True == _3517472_37) {
+Obj _3517473_37 = PRIM_CDR(_3516738_37);
+Obj _3517474_37 = PRIM_CAR(_3517473_37);
+Obj args = _3517474_37;
+Obj _3517475_37 = PRIM_CDR(_3516738_37);
+Obj _3517476_37 = PRIM_CDR(_3517475_37);
+Obj _3517477_37 = PRIM_ISCONS(_3517476_37);
+if (True == _3517477_37) {
+Obj _3517478_37 = PRIM_CDR(_3516738_37);
+Obj _3517479_37 = PRIM_CDR(_3517478_37);
+Obj _3517480_37 = PRIM_CAR(_3517479_37);
+Obj body = _3517480_37;
+Obj _3517481_37 = PRIM_CDR(_3516738_37);
+Obj _3517482_37 = PRIM_CDR(_3517481_37);
+Obj _3517483_37 = PRIM_CDR(_3517482_37);
+Obj _3517484_37 = PRIM_EQ(Nil, _3517483_37);
+if (True == _3517484_37) {
+Obj _3517485_37 = makeCons(co->gc, body, Nil);
+Obj _3517486_37 = makeCons(co->gc, args, _3517485_37);
+Obj _3517487_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517486_37);
 R[1] = body;
 R[2] = args;
-R[3] = _3516667_37;
+R[3] = _3516737_37;
 saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517417_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517487_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516741_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3516741_37);
 return;
 }
 }
@@ -6386,42 +6466,42 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516672_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517366_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517366_37) {
-Obj _3517367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517368_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517367_37);
-if (True == _3517368_37) {
-Obj _3517369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517370_37 = PRIM_ISCONS(_3517369_37);
-if (True == _3517370_37) {
-Obj _3517371_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517372_37 = PRIM_CAR(_3517371_37);
-Obj a = _3517372_37;
-Obj _3517373_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517374_37 = PRIM_CDR(_3517373_37);
-Obj _3517375_37 = PRIM_ISCONS(_3517374_37);
-if (True == _3517375_37) {
-Obj _3517376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517377_37 = PRIM_CDR(_3517376_37);
-Obj _3517378_37 = PRIM_CAR(_3517377_37);
-Obj b = _3517378_37;
-Obj _3517379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517380_37 = PRIM_CDR(_3517379_37);
-Obj _3517381_37 = PRIM_CDR(_3517380_37);
-Obj _3517382_37 = PRIM_ISCONS(_3517381_37);
-if (True == _3517382_37) {
-Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517384_37 = PRIM_CDR(_3517383_37);
-Obj _3517385_37 = PRIM_CDR(_3517384_37);
-Obj _3517386_37 = PRIM_CAR(_3517385_37);
-Obj c = _3517386_37;
-Obj _3517387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517388_37 = PRIM_CDR(_3517387_37);
-Obj _3517389_37 = PRIM_CDR(_3517388_37);
-Obj _3517390_37 = PRIM_CDR(_3517389_37);
-Obj _3517391_37 = PRIM_EQ(Nil, _3517390_37);
-if (True == _3517391_37) {
+Obj _3516742_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3517436_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517436_37) {
+Obj _3517437_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517438_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517437_37);
+if (True == _3517438_37) {
+Obj _3517439_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517440_37 = PRIM_ISCONS(_3517439_37);
+if (True == _3517440_37) {
+Obj _3517441_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517442_37 = PRIM_CAR(_3517441_37);
+Obj a = _3517442_37;
+Obj _3517443_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517444_37 = PRIM_CDR(_3517443_37);
+Obj _3517445_37 = PRIM_ISCONS(_3517444_37);
+if (True == _3517445_37) {
+Obj _3517446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517447_37 = PRIM_CDR(_3517446_37);
+Obj _3517448_37 = PRIM_CAR(_3517447_37);
+Obj b = _3517448_37;
+Obj _3517449_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517450_37 = PRIM_CDR(_3517449_37);
+Obj _3517451_37 = PRIM_CDR(_3517450_37);
+Obj _3517452_37 = PRIM_ISCONS(_3517451_37);
+if (True == _3517452_37) {
+Obj _3517453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517454_37 = PRIM_CDR(_3517453_37);
+Obj _3517455_37 = PRIM_CDR(_3517454_37);
+Obj _3517456_37 = PRIM_CAR(_3517455_37);
+Obj c = _3517456_37;
+Obj _3517457_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517458_37 = PRIM_CDR(_3517457_37);
+Obj _3517459_37 = PRIM_CDR(_3517458_37);
+Obj _3517460_37 = PRIM_CDR(_3517459_37);
+Obj _3517461_37 = PRIM_EQ(Nil, _3517460_37);
+if (True == _3517461_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun43, 2, R);
@@ -6429,53 +6509,53 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516672_37);
+coraCall0(co, _3516742_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517393_37= co->res;
-Obj _3517392_37 = R[1];
+Obj _3517463_37= co->res;
+Obj _3517462_37 = R[1];
 Obj a = R[2];
-Obj _3517394_37 = makeCons(co->gc, _3517393_37, Nil);
-Obj _3517395_37 = makeCons(co->gc, _3517392_37, _3517394_37);
-Obj _3517396_37 = makeCons(co->gc, a, _3517395_37);
-Obj _3517397_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517396_37);
-coraReturn(co, _3517397_37);
+Obj _3517464_37 = makeCons(co->gc, _3517463_37, Nil);
+Obj _3517465_37 = makeCons(co->gc, _3517462_37, _3517464_37);
+Obj _3517466_37 = makeCons(co->gc, a, _3517465_37);
+Obj _3517467_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517466_37);
+coraReturn(co, _3517467_37);
 return;
 }
 case 2:
 {
-Obj _3517392_37= co->res;
+Obj _3517462_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-R[1] = _3517392_37;
+R[1] = _3517462_37;
 R[2] = a;
 saveCont(co, clofun43, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), c);
@@ -6488,12 +6568,12 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517361_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517361_37) {
-Obj _3517362_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517362_37;
-Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517363_37;
+Obj _3517431_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517431_37) {
+Obj _3517432_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517432_37;
+Obj _3517433_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517433_37;
 R[1] = f;
 R[2] = args;
 saveCont(co, clofun42, 1, R);
@@ -6507,12 +6587,12 @@ return;
 }
 case 1:
 {
-Obj _3517364_37= co->res;
+Obj _3517434_37= co->res;
 Obj f = R[1];
 Obj args = R[2];
-Obj _3517365_37 = makeCons(co->gc, f, args);
+Obj _3517435_37 = makeCons(co->gc, f, args);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517364_37, _3517365_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517434_37, _3517435_37);
 return;
 }
 }
@@ -6522,86 +6602,86 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516654_37 = R[1];
-R[1] = _3516654_37;
+Obj _3516724_37 = R[1];
+R[1] = _3516724_37;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516654_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516724_37);
 return;
 }
 case 1:
 {
-Obj _3517353_37= co->res;
+Obj _3517423_37= co->res;
 Obj args = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517353_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517423_37, args);
 return;
 }
 case 2:
 {
-Obj _3517180_37= co->res;
-Obj _3516654_37 = R[1];
-if (True == _3517180_37) {
+Obj _3517250_37= co->res;
+Obj _3516724_37 = R[1];
+if (True == _3517250_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517181_37 = primIsSymbol(_3516654_37);
-if (True == _3517181_37) {
-Obj _3517182_37 = makeCons(co->gc, _3516654_37, Nil);
-coraReturn(co, _3517182_37);
-return;
-} else {
-Obj _3516657_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516654_37);
-Obj _3517336_37 = PRIM_ISCONS(_3516654_37);
-if (True == _3517336_37) {
-Obj _3517337_37 = PRIM_CAR(_3516654_37);
-Obj _3517338_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517337_37);
-if (True == _3517338_37) {
-Obj _3517339_37 = PRIM_CDR(_3516654_37);
-Obj _3517340_37 = PRIM_ISCONS(_3517339_37);
-if (True == _3517340_37) {
-Obj _3517341_37 = PRIM_CDR(_3516654_37);
-Obj _3517342_37 = PRIM_CAR(_3517341_37);
-Obj args = _3517342_37;
-Obj _3517343_37 = PRIM_CDR(_3516654_37);
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_ISCONS(_3517344_37);
-if (True == _3517345_37) {
-Obj _3517346_37 = PRIM_CDR(_3516654_37);
-Obj _3517347_37 = PRIM_CDR(_3517346_37);
-Obj _3517348_37 = PRIM_CAR(_3517347_37);
-Obj body = _3517348_37;
-Obj _3517349_37 = PRIM_CDR(_3516654_37);
-Obj _3517350_37 = PRIM_CDR(_3517349_37);
-Obj _3517351_37 = PRIM_CDR(_3517350_37);
-Obj _3517352_37 = PRIM_EQ(Nil, _3517351_37);
-if (True == _3517352_37) {
+Obj _3517251_37 = primIsSymbol(_3516724_37);
+if (True == _3517251_37) {
+Obj _3517252_37 = makeCons(co->gc, _3516724_37, Nil);
+coraReturn(co, _3517252_37);
+return;
+} else {
+Obj _3516727_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516724_37);
+Obj _3517406_37 = PRIM_ISCONS(_3516724_37);
+if (True == _3517406_37) {
+Obj _3517407_37 = PRIM_CAR(_3516724_37);
+Obj _3517408_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517407_37);
+if (True == _3517408_37) {
+Obj _3517409_37 = PRIM_CDR(_3516724_37);
+Obj _3517410_37 = PRIM_ISCONS(_3517409_37);
+if (True == _3517410_37) {
+Obj _3517411_37 = PRIM_CDR(_3516724_37);
+Obj _3517412_37 = PRIM_CAR(_3517411_37);
+Obj args = _3517412_37;
+Obj _3517413_37 = PRIM_CDR(_3516724_37);
+Obj _3517414_37 = PRIM_CDR(_3517413_37);
+Obj _3517415_37 = PRIM_ISCONS(_3517414_37);
+if (True == _3517415_37) {
+Obj _3517416_37 = PRIM_CDR(_3516724_37);
+Obj _3517417_37 = PRIM_CDR(_3517416_37);
+Obj _3517418_37 = PRIM_CAR(_3517417_37);
+Obj body = _3517418_37;
+Obj _3517419_37 = PRIM_CDR(_3516724_37);
+Obj _3517420_37 = PRIM_CDR(_3517419_37);
+Obj _3517421_37 = PRIM_CDR(_3517420_37);
+Obj _3517422_37 = PRIM_EQ(Nil, _3517421_37);
+if (True == _3517422_37) {
 R[1] = args;
 saveCont(co, clofun41, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516727_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516657_37);
+coraCall0(co, _3516727_37);
 return;
 }
 }
@@ -6614,84 +6694,84 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516658_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517306_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517306_37) {
-Obj _3517307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517308_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517307_37);
-if (True == _3517308_37) {
-Obj _3517309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517310_37 = PRIM_ISCONS(_3517309_37);
-if (True == _3517310_37) {
-Obj _3517311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517312_37 = PRIM_CAR(_3517311_37);
-Obj x = _3517312_37;
-Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517314_37 = PRIM_CDR(_3517313_37);
-Obj _3517315_37 = PRIM_ISCONS(_3517314_37);
-if (True == _3517315_37) {
-Obj _3517316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517317_37 = PRIM_CDR(_3517316_37);
-Obj _3517318_37 = PRIM_CAR(_3517317_37);
-Obj y = _3517318_37;
-Obj _3517319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517320_37 = PRIM_CDR(_3517319_37);
-Obj _3517321_37 = PRIM_CDR(_3517320_37);
-Obj _3517322_37 = PRIM_ISCONS(_3517321_37);
-if (True == _3517322_37) {
-Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517324_37 = PRIM_CDR(_3517323_37);
-Obj _3517325_37 = PRIM_CDR(_3517324_37);
-Obj _3517326_37 = PRIM_CAR(_3517325_37);
-Obj z = _3517326_37;
-Obj _3517327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517328_37 = PRIM_CDR(_3517327_37);
-Obj _3517329_37 = PRIM_CDR(_3517328_37);
-Obj _3517330_37 = PRIM_CDR(_3517329_37);
-Obj _3517331_37 = PRIM_EQ(Nil, _3517330_37);
-if (True == _3517331_37) {
-Obj _3517332_37 = makeCons(co->gc, z, Nil);
-Obj _3517333_37 = makeCons(co->gc, y, _3517332_37);
-Obj _3517334_37 = makeCons(co->gc, x, _3517333_37);
+Obj _3516728_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3517376_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517376_37) {
+Obj _3517377_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517378_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517377_37);
+if (True == _3517378_37) {
+Obj _3517379_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517380_37 = PRIM_ISCONS(_3517379_37);
+if (True == _3517380_37) {
+Obj _3517381_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517382_37 = PRIM_CAR(_3517381_37);
+Obj x = _3517382_37;
+Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517384_37 = PRIM_CDR(_3517383_37);
+Obj _3517385_37 = PRIM_ISCONS(_3517384_37);
+if (True == _3517385_37) {
+Obj _3517386_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517387_37 = PRIM_CDR(_3517386_37);
+Obj _3517388_37 = PRIM_CAR(_3517387_37);
+Obj y = _3517388_37;
+Obj _3517389_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517390_37 = PRIM_CDR(_3517389_37);
+Obj _3517391_37 = PRIM_CDR(_3517390_37);
+Obj _3517392_37 = PRIM_ISCONS(_3517391_37);
+if (True == _3517392_37) {
+Obj _3517393_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517394_37 = PRIM_CDR(_3517393_37);
+Obj _3517395_37 = PRIM_CDR(_3517394_37);
+Obj _3517396_37 = PRIM_CAR(_3517395_37);
+Obj z = _3517396_37;
+Obj _3517397_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517398_37 = PRIM_CDR(_3517397_37);
+Obj _3517399_37 = PRIM_CDR(_3517398_37);
+Obj _3517400_37 = PRIM_CDR(_3517399_37);
+Obj _3517401_37 = PRIM_EQ(Nil, _3517400_37);
+if (True == _3517401_37) {
+Obj _3517402_37 = makeCons(co->gc, z, Nil);
+Obj _3517403_37 = makeCons(co->gc, y, _3517402_37);
+Obj _3517404_37 = makeCons(co->gc, x, _3517403_37);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517334_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517404_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516728_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516658_37);
+coraCall0(co, _3516728_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517335_37= co->res;
+Obj _3517405_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517335_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517405_37);
 return;
 }
 }
@@ -6701,67 +6781,67 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516659_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517286_37) {
-Obj _3517287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517288_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517287_37);
-if (True == _3517288_37) {
-Obj _3517289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517290_37 = PRIM_ISCONS(_3517289_37);
-if (True == _3517290_37) {
-Obj _3517291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517292_37 = PRIM_CAR(_3517291_37);
-Obj x = _3517292_37;
-Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517294_37 = PRIM_CDR(_3517293_37);
-Obj _3517295_37 = PRIM_ISCONS(_3517294_37);
-if (True == _3517295_37) {
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_CDR(_3517296_37);
-Obj _3517298_37 = PRIM_CAR(_3517297_37);
-Obj y = _3517298_37;
-Obj _3517299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517300_37 = PRIM_CDR(_3517299_37);
-Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_EQ(Nil, _3517301_37);
-if (True == _3517302_37) {
-Obj _3517303_37 = makeCons(co->gc, y, Nil);
-Obj _3517304_37 = makeCons(co->gc, x, _3517303_37);
+Obj _3516729_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3517356_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517356_37) {
+Obj _3517357_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517358_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517357_37);
+if (True == _3517358_37) {
+Obj _3517359_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517360_37 = PRIM_ISCONS(_3517359_37);
+if (True == _3517360_37) {
+Obj _3517361_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517362_37 = PRIM_CAR(_3517361_37);
+Obj x = _3517362_37;
+Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517364_37 = PRIM_CDR(_3517363_37);
+Obj _3517365_37 = PRIM_ISCONS(_3517364_37);
+if (True == _3517365_37) {
+Obj _3517366_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517367_37 = PRIM_CDR(_3517366_37);
+Obj _3517368_37 = PRIM_CAR(_3517367_37);
+Obj y = _3517368_37;
+Obj _3517369_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517370_37 = PRIM_CDR(_3517369_37);
+Obj _3517371_37 = PRIM_CDR(_3517370_37);
+Obj _3517372_37 = PRIM_EQ(Nil, _3517371_37);
+if (True == _3517372_37) {
+Obj _3517373_37 = makeCons(co->gc, y, Nil);
+Obj _3517374_37 = makeCons(co->gc, x, _3517373_37);
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517304_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517374_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516729_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516659_37);
+coraCall0(co, _3516729_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517305_37= co->res;
+Obj _3517375_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517305_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517375_37);
 return;
 }
 }
@@ -6771,42 +6851,42 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516660_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517256_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517256_37) {
-Obj _3517257_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517258_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517257_37);
-if (True == _3517258_37) {
-Obj _3517259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517260_37 = PRIM_ISCONS(_3517259_37);
-if (True == _3517260_37) {
-Obj _3517261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517262_37 = PRIM_CAR(_3517261_37);
-Obj a = _3517262_37;
-Obj _3517263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517264_37 = PRIM_CDR(_3517263_37);
-Obj _3517265_37 = PRIM_ISCONS(_3517264_37);
-if (True == _3517265_37) {
-Obj _3517266_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517267_37 = PRIM_CDR(_3517266_37);
-Obj _3517268_37 = PRIM_CAR(_3517267_37);
-Obj b = _3517268_37;
-Obj _3517269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517270_37 = PRIM_CDR(_3517269_37);
-Obj _3517271_37 = PRIM_CDR(_3517270_37);
-Obj _3517272_37 = PRIM_ISCONS(_3517271_37);
-if (True == _3517272_37) {
-Obj _3517273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517274_37 = PRIM_CDR(_3517273_37);
-Obj _3517275_37 = PRIM_CDR(_3517274_37);
-Obj _3517276_37 = PRIM_CAR(_3517275_37);
-Obj c = _3517276_37;
-Obj _3517277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517278_37 = PRIM_CDR(_3517277_37);
-Obj _3517279_37 = PRIM_CDR(_3517278_37);
-Obj _3517280_37 = PRIM_CDR(_3517279_37);
-Obj _3517281_37 = PRIM_EQ(Nil, _3517280_37);
-if (True == _3517281_37) {
+Obj _3516730_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3517326_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517326_37) {
+Obj _3517327_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517328_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517327_37);
+if (True == _3517328_37) {
+Obj _3517329_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517330_37 = PRIM_ISCONS(_3517329_37);
+if (True == _3517330_37) {
+Obj _3517331_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517332_37 = PRIM_CAR(_3517331_37);
+Obj a = _3517332_37;
+Obj _3517333_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517334_37 = PRIM_CDR(_3517333_37);
+Obj _3517335_37 = PRIM_ISCONS(_3517334_37);
+if (True == _3517335_37) {
+Obj _3517336_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517337_37 = PRIM_CDR(_3517336_37);
+Obj _3517338_37 = PRIM_CAR(_3517337_37);
+Obj b = _3517338_37;
+Obj _3517339_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517340_37 = PRIM_CDR(_3517339_37);
+Obj _3517341_37 = PRIM_CDR(_3517340_37);
+Obj _3517342_37 = PRIM_ISCONS(_3517341_37);
+if (True == _3517342_37) {
+Obj _3517343_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517344_37 = PRIM_CDR(_3517343_37);
+Obj _3517345_37 = PRIM_CDR(_3517344_37);
+Obj _3517346_37 = PRIM_CAR(_3517345_37);
+Obj c = _3517346_37;
+Obj _3517347_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517348_37 = PRIM_CDR(_3517347_37);
+Obj _3517349_37 = PRIM_CDR(_3517348_37);
+Obj _3517350_37 = PRIM_CDR(_3517349_37);
+Obj _3517351_37 = PRIM_EQ(Nil, _3517350_37);
+if (True == _3517351_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun38, 3, R);
@@ -6814,61 +6894,61 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516730_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516660_37);
+coraCall0(co, _3516730_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517285_37= co->res;
-Obj _3517282_37 = R[1];
+Obj _3517355_37= co->res;
+Obj _3517352_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517282_37, _3517285_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517352_37, _3517355_37);
 return;
 }
 case 2:
 {
-Obj _3517283_37= co->res;
+Obj _3517353_37= co->res;
 Obj a = R[1];
-Obj _3517282_37 = R[2];
-Obj _3517284_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517282_37;
+Obj _3517352_37 = R[2];
+Obj _3517354_37 = makeCons(co->gc, a, Nil);
+R[1] = _3517352_37;
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517283_37, _3517284_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517353_37, _3517354_37);
 return;
 }
 case 3:
 {
-Obj _3517282_37= co->res;
+Obj _3517352_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
 R[1] = a;
-R[2] = _3517282_37;
+R[2] = _3517352_37;
 saveCont(co, clofun38, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
 return;
@@ -6880,38 +6960,38 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516661_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517246_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517246_37) {
-Obj _3517247_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517248_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517247_37);
-if (True == _3517248_37) {
-Obj _3517249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517250_37 = PRIM_ISCONS(_3517249_37);
-if (True == _3517250_37) {
-Obj _3517251_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517252_37 = PRIM_CAR(_3517251_37);
-Obj lam = _3517252_37;
-Obj _3517253_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517254_37 = PRIM_CDR(_3517253_37);
-Obj more = _3517254_37;
-Obj _3517255_37 = makeCons(co->gc, lam, more);
+Obj _3516731_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3517316_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517316_37) {
+Obj _3517317_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517318_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517317_37);
+if (True == _3517318_37) {
+Obj _3517319_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517320_37 = PRIM_ISCONS(_3517319_37);
+if (True == _3517320_37) {
+Obj _3517321_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517322_37 = PRIM_CAR(_3517321_37);
+Obj lam = _3517322_37;
+Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517324_37 = PRIM_CDR(_3517323_37);
+Obj more = _3517324_37;
+Obj _3517325_37 = makeCons(co->gc, lam, more);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517255_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517325_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516731_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516731_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516661_37);
+coraCall0(co, _3516731_37);
 return;
 }
 }
@@ -6922,43 +7002,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516662_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517236_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517236_37) {
-Obj _3517237_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517238_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517237_37);
-if (True == _3517238_37) {
-Obj _3517239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517240_37 = PRIM_ISCONS(_3517239_37);
-if (True == _3517240_37) {
-Obj _3517241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517242_37 = PRIM_CAR(_3517241_37);
-Obj x = _3517242_37;
-Obj _3517243_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517244_37 = PRIM_CDR(_3517243_37);
-Obj _3517245_37 = PRIM_EQ(Nil, _3517244_37);
-if (True == _3517245_37) {
+Obj _3516732_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj _3517306_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517306_37) {
+Obj _3517307_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517308_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517307_37);
+if (True == _3517308_37) {
+Obj _3517309_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517310_37 = PRIM_ISCONS(_3517309_37);
+if (True == _3517310_37) {
+Obj _3517311_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517312_37 = PRIM_CAR(_3517311_37);
+Obj x = _3517312_37;
+Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517314_37 = PRIM_CDR(_3517313_37);
+Obj _3517315_37 = PRIM_EQ(Nil, _3517314_37);
+if (True == _3517315_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516732_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516662_37);
+coraCall0(co, _3516732_37);
 return;
 }
 }
@@ -6969,67 +7049,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516663_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517216_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517216_37) {
-Obj _3517217_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517218_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517217_37);
-if (True == _3517218_37) {
-Obj _3517219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517220_37 = PRIM_ISCONS(_3517219_37);
-if (True == _3517220_37) {
-Obj _3517221_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517222_37 = PRIM_CAR(_3517221_37);
-Obj exp = _3517222_37;
-Obj _3517223_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517224_37 = PRIM_CDR(_3517223_37);
-Obj _3517225_37 = PRIM_ISCONS(_3517224_37);
-if (True == _3517225_37) {
-Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_CDR(_3517226_37);
-Obj _3517228_37 = PRIM_CAR(_3517227_37);
-Obj cont = _3517228_37;
-Obj _3517229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517230_37 = PRIM_CDR(_3517229_37);
-Obj _3517231_37 = PRIM_CDR(_3517230_37);
-Obj _3517232_37 = PRIM_EQ(Nil, _3517231_37);
-if (True == _3517232_37) {
-Obj _3517233_37 = makeCons(co->gc, cont, Nil);
-Obj _3517234_37 = makeCons(co->gc, exp, _3517233_37);
+Obj _3516733_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj _3517286_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517286_37) {
+Obj _3517287_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517288_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517287_37);
+if (True == _3517288_37) {
+Obj _3517289_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517290_37 = PRIM_ISCONS(_3517289_37);
+if (True == _3517290_37) {
+Obj _3517291_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517292_37 = PRIM_CAR(_3517291_37);
+Obj exp = _3517292_37;
+Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517294_37 = PRIM_CDR(_3517293_37);
+Obj _3517295_37 = PRIM_ISCONS(_3517294_37);
+if (True == _3517295_37) {
+Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517297_37 = PRIM_CDR(_3517296_37);
+Obj _3517298_37 = PRIM_CAR(_3517297_37);
+Obj cont = _3517298_37;
+Obj _3517299_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517300_37 = PRIM_CDR(_3517299_37);
+Obj _3517301_37 = PRIM_CDR(_3517300_37);
+Obj _3517302_37 = PRIM_EQ(Nil, _3517301_37);
+if (True == _3517302_37) {
+Obj _3517303_37 = makeCons(co->gc, cont, Nil);
+Obj _3517304_37 = makeCons(co->gc, exp, _3517303_37);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517234_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517304_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516733_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516663_37);
+coraCall0(co, _3516733_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517235_37= co->res;
+Obj _3517305_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517235_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517305_37);
 return;
 }
 }
@@ -7039,43 +7119,43 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516664_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517206_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517206_37) {
-Obj _3517207_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517208_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517207_37);
-if (True == _3517208_37) {
-Obj _3517209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517210_37 = PRIM_ISCONS(_3517209_37);
-if (True == _3517210_37) {
-Obj _3517211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517212_37 = PRIM_CAR(_3517211_37);
-Obj exp = _3517212_37;
-Obj _3517213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517214_37 = PRIM_CDR(_3517213_37);
-Obj _3517215_37 = PRIM_EQ(Nil, _3517214_37);
-if (True == _3517215_37) {
+Obj _3516734_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3517276_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517276_37) {
+Obj _3517277_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517278_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517277_37);
+if (True == _3517278_37) {
+Obj _3517279_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517280_37 = PRIM_ISCONS(_3517279_37);
+if (True == _3517280_37) {
+Obj _3517281_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517282_37 = PRIM_CAR(_3517281_37);
+Obj exp = _3517282_37;
+Obj _3517283_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517284_37 = PRIM_CDR(_3517283_37);
+Obj _3517285_37 = PRIM_EQ(Nil, _3517284_37);
+if (True == _3517285_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516734_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516664_37);
+coraCall0(co, _3516734_37);
 return;
 }
 }
@@ -7086,67 +7166,67 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516665_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517188_37) {
-Obj _3517189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517190_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517189_37);
-if (True == _3517190_37) {
-Obj _3517191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517192_37 = PRIM_ISCONS(_3517191_37);
-if (True == _3517192_37) {
-Obj _3517193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517194_37 = PRIM_CAR(_3517193_37);
-Obj arg = _3517194_37;
-Obj _3517195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517196_37 = PRIM_CDR(_3517195_37);
-Obj _3517197_37 = PRIM_ISCONS(_3517196_37);
-if (True == _3517197_37) {
-Obj _3517198_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517199_37 = PRIM_CDR(_3517198_37);
-Obj _3517200_37 = PRIM_CAR(_3517199_37);
-Obj body = _3517200_37;
-Obj _3517201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517202_37 = PRIM_CDR(_3517201_37);
-Obj _3517203_37 = PRIM_CDR(_3517202_37);
-Obj _3517204_37 = PRIM_EQ(Nil, _3517203_37);
-if (True == _3517204_37) {
+Obj _3516735_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj _3517258_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517258_37) {
+Obj _3517259_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517260_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517259_37);
+if (True == _3517260_37) {
+Obj _3517261_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517262_37 = PRIM_ISCONS(_3517261_37);
+if (True == _3517262_37) {
+Obj _3517263_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517264_37 = PRIM_CAR(_3517263_37);
+Obj arg = _3517264_37;
+Obj _3517265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517266_37 = PRIM_CDR(_3517265_37);
+Obj _3517267_37 = PRIM_ISCONS(_3517266_37);
+if (True == _3517267_37) {
+Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517269_37 = PRIM_CDR(_3517268_37);
+Obj _3517270_37 = PRIM_CAR(_3517269_37);
+Obj body = _3517270_37;
+Obj _3517271_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517272_37 = PRIM_CDR(_3517271_37);
+Obj _3517273_37 = PRIM_CDR(_3517272_37);
+Obj _3517274_37 = PRIM_EQ(Nil, _3517273_37);
+if (True == _3517274_37) {
 R[1] = arg;
 saveCont(co, clofun33, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516665_37);
+coraCall0(co, _3516735_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517205_37= co->res;
+Obj _3517275_37= co->res;
 Obj arg = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517205_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517275_37, arg);
 return;
 }
 }
@@ -7156,15 +7236,15 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517183_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517183_37) {
-Obj _3517184_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517184_37;
-Obj _3517185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517185_37;
-Obj _3517186_37 = makeCons(co->gc, f, args);
+Obj _3517253_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517253_37) {
+Obj _3517254_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj f = _3517254_37;
+Obj _3517255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517255_37;
+Obj _3517256_37 = makeCons(co->gc, f, args);
 saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517186_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517256_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7174,9 +7254,9 @@ return;
 }
 case 1:
 {
-Obj _3517187_37= co->res;
+Obj _3517257_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517187_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517257_37);
 return;
 }
 }
@@ -7186,42 +7266,42 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516646_37 = R[1];
-Obj _3516647_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516646_37);
-Obj _3517169_37 = PRIM_ISCONS(_3516646_37);
-if (True == _3517169_37) {
-Obj _3517170_37 = PRIM_CAR(_3516646_37);
-Obj _3517171_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517170_37);
-if (True == _3517171_37) {
-Obj _3517172_37 = PRIM_CDR(_3516646_37);
-Obj _3517173_37 = PRIM_ISCONS(_3517172_37);
-if (True == _3517173_37) {
-Obj _3517174_37 = PRIM_CDR(_3516646_37);
-Obj _3517175_37 = PRIM_CAR(_3517174_37);
-Obj _3517176_37 = PRIM_CDR(_3516646_37);
-Obj _3517177_37 = PRIM_CDR(_3517176_37);
-Obj _3517178_37 = PRIM_EQ(Nil, _3517177_37);
-if (True == _3517178_37) {
+Obj _3516716_37 = R[1];
+Obj _3516717_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516716_37);
+Obj _3517239_37 = PRIM_ISCONS(_3516716_37);
+if (True == _3517239_37) {
+Obj _3517240_37 = PRIM_CAR(_3516716_37);
+Obj _3517241_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517240_37);
+if (True == _3517241_37) {
+Obj _3517242_37 = PRIM_CDR(_3516716_37);
+Obj _3517243_37 = PRIM_ISCONS(_3517242_37);
+if (True == _3517243_37) {
+Obj _3517244_37 = PRIM_CDR(_3516716_37);
+Obj _3517245_37 = PRIM_CAR(_3517244_37);
+Obj _3517246_37 = PRIM_CDR(_3516716_37);
+Obj _3517247_37 = PRIM_CDR(_3517246_37);
+Obj _3517248_37 = PRIM_EQ(Nil, _3517247_37);
+if (True == _3517248_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516717_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516717_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516717_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516647_37);
+coraCall0(co, _3516717_37);
 return;
 }
 }
@@ -7232,41 +7312,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516648_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517159_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517159_37) {
-Obj _3517160_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517161_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517160_37);
-if (True == _3517161_37) {
-Obj _3517162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517163_37 = PRIM_ISCONS(_3517162_37);
-if (True == _3517163_37) {
-Obj _3517164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517165_37 = PRIM_CAR(_3517164_37);
-Obj _3517166_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517167_37 = PRIM_CDR(_3517166_37);
-Obj _3517168_37 = PRIM_EQ(Nil, _3517167_37);
-if (True == _3517168_37) {
+Obj _3516718_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj _3517229_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517229_37) {
+Obj _3517230_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517231_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517230_37);
+if (True == _3517231_37) {
+Obj _3517232_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517233_37 = PRIM_ISCONS(_3517232_37);
+if (True == _3517233_37) {
+Obj _3517234_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517235_37 = PRIM_CAR(_3517234_37);
+Obj _3517236_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517237_37 = PRIM_CDR(_3517236_37);
+Obj _3517238_37 = PRIM_EQ(Nil, _3517237_37);
+if (True == _3517238_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516718_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516718_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516718_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516648_37);
+coraCall0(co, _3516718_37);
 return;
 }
 }
@@ -7277,41 +7357,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516649_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517149_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517149_37) {
-Obj _3517150_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517151_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517150_37);
-if (True == _3517151_37) {
-Obj _3517152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517153_37 = PRIM_ISCONS(_3517152_37);
-if (True == _3517153_37) {
-Obj _3517154_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517155_37 = PRIM_CAR(_3517154_37);
-Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517157_37 = PRIM_CDR(_3517156_37);
-Obj _3517158_37 = PRIM_EQ(Nil, _3517157_37);
-if (True == _3517158_37) {
+Obj _3516719_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj _3517219_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517219_37) {
+Obj _3517220_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517221_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517220_37);
+if (True == _3517221_37) {
+Obj _3517222_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517223_37 = PRIM_ISCONS(_3517222_37);
+if (True == _3517223_37) {
+Obj _3517224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517225_37 = PRIM_CAR(_3517224_37);
+Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517227_37 = PRIM_CDR(_3517226_37);
+Obj _3517228_37 = PRIM_EQ(Nil, _3517227_37);
+if (True == _3517228_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516649_37);
+coraCall0(co, _3516719_37);
 return;
 }
 }
@@ -7322,41 +7402,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516650_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517139_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517139_37) {
-Obj _3517140_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517141_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517140_37);
-if (True == _3517141_37) {
-Obj _3517142_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517143_37 = PRIM_ISCONS(_3517142_37);
-if (True == _3517143_37) {
-Obj _3517144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517145_37 = PRIM_CAR(_3517144_37);
-Obj _3517146_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517147_37 = PRIM_CDR(_3517146_37);
-Obj _3517148_37 = PRIM_EQ(Nil, _3517147_37);
-if (True == _3517148_37) {
+Obj _3516720_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
+Obj _3517209_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517209_37) {
+Obj _3517210_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517211_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517210_37);
+if (True == _3517211_37) {
+Obj _3517212_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517213_37 = PRIM_ISCONS(_3517212_37);
+if (True == _3517213_37) {
+Obj _3517214_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517215_37 = PRIM_CAR(_3517214_37);
+Obj _3517216_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517217_37 = PRIM_CDR(_3517216_37);
+Obj _3517218_37 = PRIM_EQ(Nil, _3517217_37);
+if (True == _3517218_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516650_37);
+coraCall0(co, _3516720_37);
 return;
 }
 }
@@ -7367,41 +7447,41 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516651_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517129_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517129_37) {
-Obj _3517130_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517131_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517130_37);
-if (True == _3517131_37) {
-Obj _3517132_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517133_37 = PRIM_ISCONS(_3517132_37);
-if (True == _3517133_37) {
-Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517135_37 = PRIM_CAR(_3517134_37);
-Obj _3517136_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517137_37 = PRIM_CDR(_3517136_37);
-Obj _3517138_37 = PRIM_EQ(Nil, _3517137_37);
-if (True == _3517138_37) {
+Obj _3516721_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
+Obj _3517199_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517199_37) {
+Obj _3517200_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517201_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517200_37);
+if (True == _3517201_37) {
+Obj _3517202_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517203_37 = PRIM_ISCONS(_3517202_37);
+if (True == _3517203_37) {
+Obj _3517204_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517205_37 = PRIM_CAR(_3517204_37);
+Obj _3517206_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517207_37 = PRIM_CDR(_3517206_37);
+Obj _3517208_37 = PRIM_EQ(Nil, _3517207_37);
+if (True == _3517208_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516651_37);
+coraCall0(co, _3516721_37);
 return;
 }
 }
@@ -7412,50 +7492,50 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516652_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517119_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517119_37) {
-Obj _3517120_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517121_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517120_37);
-if (True == _3517121_37) {
-Obj _3517122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517123_37 = PRIM_ISCONS(_3517122_37);
-if (True == _3517123_37) {
-Obj _3517124_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517125_37 = PRIM_CAR(_3517124_37);
-Obj label = _3517125_37;
-Obj _3517126_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517127_37 = PRIM_CDR(_3517126_37);
-R[1] = _3516652_37;
+Obj _3516722_37 = makeNative(co->gc, 1, clofun25, 0, 0);
+Obj _3517189_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517189_37) {
+Obj _3517190_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517191_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517190_37);
+if (True == _3517191_37) {
+Obj _3517192_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517193_37 = PRIM_ISCONS(_3517192_37);
+if (True == _3517193_37) {
+Obj _3517194_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517195_37 = PRIM_CAR(_3517194_37);
+Obj label = _3517195_37;
+Obj _3517196_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517197_37 = PRIM_CDR(_3517196_37);
+R[1] = _3516722_37;
 saveCont(co, clofun26, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516722_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517128_37= co->res;
-Obj _3516652_37 = R[1];
-if (True == _3517128_37) {
+Obj _3517198_37= co->res;
+Obj _3516722_37 = R[1];
+if (True == _3517198_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516652_37);
+coraCall0(co, _3516722_37);
 return;
 }
 }
@@ -7476,46 +7556,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516641_37 = R[1];
-Obj _3516642_37 = R[2];
-Obj _3517108_37 = PRIM_EQ(Nil, _3516641_37);
-if (True == _3517108_37) {
+Obj _3516711_37 = R[1];
+Obj _3516712_37 = R[2];
+Obj _3517178_37 = PRIM_EQ(Nil, _3516711_37);
+if (True == _3517178_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516644_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516641_37, _3516642_37);
-Obj _3517114_37 = PRIM_ISCONS(_3516641_37);
-if (True == _3517114_37) {
-Obj _3517115_37 = PRIM_CAR(_3516641_37);
-Obj x = _3517115_37;
-Obj _3517116_37 = PRIM_CDR(_3516641_37);
-Obj y = _3517116_37;
+Obj _3516714_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516711_37, _3516712_37);
+Obj _3517184_37 = PRIM_ISCONS(_3516711_37);
+if (True == _3517184_37) {
+Obj _3517185_37 = PRIM_CAR(_3516711_37);
+Obj x = _3517185_37;
+Obj _3517186_37 = PRIM_CDR(_3516711_37);
+Obj y = _3517186_37;
 R[1] = y;
-R[2] = _3516642_37;
-R[3] = _3516644_37;
+R[2] = _3516712_37;
+R[3] = _3516714_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516712_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, _3516714_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517117_37= co->res;
+Obj _3517187_37= co->res;
 Obj y = R[1];
-Obj _3516642_37 = R[2];
-Obj _3516644_37 = R[3];
-if (True == _3517117_37) {
+Obj _3516712_37 = R[2];
+Obj _3516714_37 = R[3];
+if (True == _3517187_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516642_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516712_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516644_37);
+coraCall0(co, _3516714_37);
 return;
 }
 }
@@ -7526,12 +7606,12 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517109_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517109_37) {
-Obj _3517110_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517110_37;
-Obj _3517111_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517111_37;
+Obj _3517179_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517179_37) {
+Obj _3517180_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517180_37;
+Obj _3517181_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517181_37;
 R[1] = x;
 saveCont(co, clofun23, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
@@ -7544,10 +7624,10 @@ return;
 }
 case 1:
 {
-Obj _3517112_37= co->res;
+Obj _3517182_37= co->res;
 Obj x = R[1];
-Obj _3517113_37 = makeCons(co->gc, x, _3517112_37);
-coraReturn(co, _3517113_37);
+Obj _3517183_37 = makeCons(co->gc, x, _3517182_37);
+coraReturn(co, _3517183_37);
 return;
 }
 }
@@ -7557,46 +7637,46 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516636_37 = R[1];
-Obj _3516637_37 = R[2];
-Obj _3517097_37 = PRIM_EQ(Nil, _3516636_37);
-if (True == _3517097_37) {
-coraReturn(co, _3516637_37);
+Obj _3516706_37 = R[1];
+Obj _3516707_37 = R[2];
+Obj _3517167_37 = PRIM_EQ(Nil, _3516706_37);
+if (True == _3517167_37) {
+coraReturn(co, _3516707_37);
 return;
 } else {
-Obj _3516639_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516636_37, _3516637_37);
-Obj _3517103_37 = PRIM_ISCONS(_3516636_37);
-if (True == _3517103_37) {
-Obj _3517104_37 = PRIM_CAR(_3516636_37);
-Obj x = _3517104_37;
-Obj _3517105_37 = PRIM_CDR(_3516636_37);
-Obj y = _3517105_37;
+Obj _3516709_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516706_37, _3516707_37);
+Obj _3517173_37 = PRIM_ISCONS(_3516706_37);
+if (True == _3517173_37) {
+Obj _3517174_37 = PRIM_CAR(_3516706_37);
+Obj x = _3517174_37;
+Obj _3517175_37 = PRIM_CDR(_3516706_37);
+Obj y = _3517175_37;
 R[1] = y;
-R[2] = _3516637_37;
-R[3] = _3516639_37;
+R[2] = _3516707_37;
+R[3] = _3516709_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516707_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, _3516709_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517106_37= co->res;
+Obj _3517176_37= co->res;
 Obj y = R[1];
-Obj _3516637_37 = R[2];
-Obj _3516639_37 = R[3];
-if (True == _3517106_37) {
+Obj _3516707_37 = R[2];
+Obj _3516709_37 = R[3];
+if (True == _3517176_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516637_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516707_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516639_37);
+coraCall0(co, _3516709_37);
 return;
 }
 }
@@ -7607,12 +7687,12 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517098_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517098_37) {
-Obj _3517099_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517099_37;
-Obj _3517100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517100_37;
+Obj _3517168_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517168_37) {
+Obj _3517169_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj x = _3517169_37;
+Obj _3517170_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3517170_37;
 R[1] = x;
 saveCont(co, clofun21, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
@@ -7625,10 +7705,10 @@ return;
 }
 case 1:
 {
-Obj _3517101_37= co->res;
+Obj _3517171_37= co->res;
 Obj x = R[1];
-Obj _3517102_37 = makeCons(co->gc, x, _3517101_37);
-coraReturn(co, _3517102_37);
+Obj _3517172_37 = makeCons(co->gc, x, _3517171_37);
+coraReturn(co, _3517172_37);
 return;
 }
 }
@@ -7638,66 +7718,66 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516622_37 = R[1];
-Obj _3516623_37 = R[2];
-Obj _3516624_37 = R[3];
-Obj _3516766_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516622_37, _3516624_37, _3516623_37);
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+Obj _3516692_37 = R[1];
+Obj _3516693_37 = R[2];
+Obj _3516694_37 = R[3];
+Obj _3516836_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516692_37, _3516694_37, _3516693_37);
+R[1] = _3516694_37;
+R[2] = _3516836_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516694_37);
 return;
 }
 case 1:
 {
-Obj _3517095_37= co->res;
-Obj _3516766_37 = R[1];
-if (True == _3517095_37) {
+Obj _3517165_37= co->res;
+Obj _3516836_37 = R[1];
+if (True == _3517165_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516836_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, False);
+coraCall1(co, _3516836_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517094_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517094_37) {
+Obj _3517164_37= co->res;
+Obj _3516694_37 = R[1];
+Obj _3516836_37 = R[2];
+if (True == _3517164_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516836_37, True);
 return;
 } else {
-R[1] = _3516766_37;
+R[1] = _3516836_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516694_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517092_37= co->res;
-Obj _3516624_37 = R[1];
-Obj _3516766_37 = R[2];
-if (True == _3517092_37) {
+Obj _3517162_37= co->res;
+Obj _3516694_37 = R[1];
+Obj _3516836_37 = R[2];
+if (True == _3517162_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516836_37, True);
 return;
 } else {
-Obj _3517093_37 = primIsString(_3516624_37);
-if (True == _3517093_37) {
+Obj _3517163_37 = primIsString(_3516694_37);
+if (True == _3517163_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516766_37, True);
+coraCall1(co, _3516836_37, True);
 return;
 } else {
-R[1] = _3516624_37;
-R[2] = _3516766_37;
+R[1] = _3516694_37;
+R[2] = _3516836_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516624_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516694_37);
 return;
 }
 }
@@ -7709,62 +7789,62 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516767_37 = R[1];
-if (True == _3516767_37) {
-Obj _3516903_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516904_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516903_37);
-coraReturn(co, _3516904_37);
-return;
-} else {
-Obj _3516626_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517079_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517079_37) {
-Obj _3517080_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517081_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517080_37);
-if (True == _3517081_37) {
-Obj _3517082_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517083_37 = PRIM_ISCONS(_3517082_37);
-if (True == _3517083_37) {
-Obj _3517084_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517085_37 = PRIM_CAR(_3517084_37);
-Obj x = _3517085_37;
-Obj _3517086_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517087_37 = PRIM_CDR(_3517086_37);
-Obj _3517088_37 = PRIM_EQ(Nil, _3517087_37);
-if (True == _3517088_37) {
+Obj _3516837_37 = R[1];
+if (True == _3516837_37) {
+Obj _3516973_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3516974_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516973_37);
+coraReturn(co, _3516974_37);
+return;
+} else {
+Obj _3516696_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3517149_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3517149_37) {
+Obj _3517150_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3517151_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517150_37);
+if (True == _3517151_37) {
+Obj _3517152_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517153_37 = PRIM_ISCONS(_3517152_37);
+if (True == _3517153_37) {
+Obj _3517154_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517155_37 = PRIM_CAR(_3517154_37);
+Obj x = _3517155_37;
+Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517157_37 = PRIM_CDR(_3517156_37);
+Obj _3517158_37 = PRIM_EQ(Nil, _3517157_37);
+if (True == _3517158_37) {
 R[1] = x;
 saveCont(co, clofun19, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516626_37);
+coraCall0(co, _3516696_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517089_37= co->res;
+Obj _3517159_37= co->res;
 Obj x = R[1];
-Obj _3517090_37 = makeCons(co->gc, x, Nil);
-Obj _3517091_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517090_37);
-coraReturn(co, _3517091_37);
+Obj _3517160_37 = makeCons(co->gc, x, Nil);
+Obj _3517161_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517160_37);
+coraReturn(co, _3517161_37);
 return;
 }
 }
@@ -7774,37 +7854,37 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516905_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516905_37) {
+Obj _3516975_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3516975_37) {
 saveCont(co, clofun18, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516628_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517057_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517057_37) {
-Obj _3517058_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517059_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517058_37);
-if (True == _3517059_37) {
-Obj _3517060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517061_37 = PRIM_ISCONS(_3517060_37);
-if (True == _3517061_37) {
-Obj _3517062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517063_37 = PRIM_CAR(_3517062_37);
-Obj args = _3517063_37;
-Obj _3517064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517065_37 = PRIM_CDR(_3517064_37);
-Obj _3517066_37 = PRIM_ISCONS(_3517065_37);
-if (True == _3517066_37) {
-Obj _3517067_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517068_37 = PRIM_CDR(_3517067_37);
-Obj _3517069_37 = PRIM_CAR(_3517068_37);
-Obj body = _3517069_37;
-Obj _3517070_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517071_37 = PRIM_CDR(_3517070_37);
-Obj _3517072_37 = PRIM_CDR(_3517071_37);
-Obj _3517073_37 = PRIM_EQ(Nil, _3517072_37);
-if (True == _3517073_37) {
+Obj _3516698_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517127_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517127_37) {
+Obj _3517128_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517129_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517128_37);
+if (True == _3517129_37) {
+Obj _3517130_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517131_37 = PRIM_ISCONS(_3517130_37);
+if (True == _3517131_37) {
+Obj _3517132_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517133_37 = PRIM_CAR(_3517132_37);
+Obj args = _3517133_37;
+Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517135_37 = PRIM_CDR(_3517134_37);
+Obj _3517136_37 = PRIM_ISCONS(_3517135_37);
+if (True == _3517136_37) {
+Obj _3517137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517138_37 = PRIM_CDR(_3517137_37);
+Obj _3517139_37 = PRIM_CAR(_3517138_37);
+Obj body = _3517139_37;
+Obj _3517140_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517141_37 = PRIM_CDR(_3517140_37);
+Obj _3517142_37 = PRIM_CDR(_3517141_37);
+Obj _3517143_37 = PRIM_EQ(Nil, _3517142_37);
+if (True == _3517143_37) {
 R[1] = body;
 R[2] = args;
 saveCont(co, clofun18, 4, R);
@@ -7812,43 +7892,43 @@ coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516628_37);
+coraCall0(co, _3516698_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516907_37= co->res;
-Obj _3516908_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516909_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516908_37);
-coraReturn(co, _3516909_37);
+Obj _3516977_37= co->res;
+Obj _3516978_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3516979_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516978_37);
+coraReturn(co, _3516979_37);
 return;
 }
 case 2:
 {
-Obj _3516906_37= co->res;
-if (True == _3516906_37) {
+Obj _3516976_37= co->res;
+if (True == _3516976_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -7859,22 +7939,22 @@ return;
 }
 case 3:
 {
-Obj _3517075_37= co->res;
+Obj _3517145_37= co->res;
 Obj args = R[1];
-Obj _3517076_37 = makeCons(co->gc, _3517075_37, Nil);
-Obj _3517077_37 = makeCons(co->gc, args, _3517076_37);
-Obj _3517078_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517077_37);
-coraReturn(co, _3517078_37);
+Obj _3517146_37 = makeCons(co->gc, _3517145_37, Nil);
+Obj _3517147_37 = makeCons(co->gc, args, _3517146_37);
+Obj _3517148_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517147_37);
+coraReturn(co, _3517148_37);
 return;
 }
 case 4:
 {
-Obj _3517074_37= co->res;
+Obj _3517144_37= co->res;
 Obj body = R[1];
 Obj args = R[2];
 R[1] = args;
 saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517074_37, closureRef(R[0], 2), body);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517144_37, closureRef(R[0], 2), body);
 return;
 }
 }
@@ -7884,74 +7964,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516629_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517025_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517025_37) {
-Obj _3517026_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517027_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517026_37);
-if (True == _3517027_37) {
-Obj _3517028_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517029_37 = PRIM_ISCONS(_3517028_37);
-if (True == _3517029_37) {
-Obj _3517030_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517031_37 = PRIM_CAR(_3517030_37);
-Obj _3517032_37 = PRIM_ISCONS(_3517031_37);
-if (True == _3517032_37) {
-Obj _3517033_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517034_37 = PRIM_CAR(_3517033_37);
-Obj _3517035_37 = PRIM_CAR(_3517034_37);
-Obj _3517036_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517035_37);
-if (True == _3517036_37) {
-Obj _3517037_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517038_37 = PRIM_CAR(_3517037_37);
-Obj _3517039_37 = PRIM_CDR(_3517038_37);
-Obj exp1 = _3517039_37;
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517041_37 = PRIM_CDR(_3517040_37);
-Obj exp2 = _3517041_37;
-Obj _3517042_37 = primGenSym(co);
-Obj f = _3517042_37;
-Obj _3517043_37 = primGenSym(co);
-Obj v = _3517043_37;
-Obj _3517044_37 = makeCons(co->gc, v, Nil);
-Obj _3517045_37 = makeCons(co->gc, v, exp2);
-Obj _3517046_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517045_37);
-Obj _3517047_37 = makeCons(co->gc, _3517046_37, Nil);
-Obj _3517048_37 = makeCons(co->gc, _3517044_37, _3517047_37);
-Obj _3517049_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517048_37);
-Obj _3517050_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517051_37 = makeCons(co->gc, _3517050_37, Nil);
-Obj _3517052_37 = makeCons(co->gc, f, _3517051_37);
-Obj _3517053_37 = makeCons(co->gc, _3517052_37, Nil);
-Obj _3517054_37 = makeCons(co->gc, _3517049_37, _3517053_37);
-Obj _3517055_37 = makeCons(co->gc, f, _3517054_37);
-Obj _3517056_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517055_37);
+Obj _3516699_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517095_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517095_37) {
+Obj _3517096_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517097_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517096_37);
+if (True == _3517097_37) {
+Obj _3517098_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517099_37 = PRIM_ISCONS(_3517098_37);
+if (True == _3517099_37) {
+Obj _3517100_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517101_37 = PRIM_CAR(_3517100_37);
+Obj _3517102_37 = PRIM_ISCONS(_3517101_37);
+if (True == _3517102_37) {
+Obj _3517103_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517104_37 = PRIM_CAR(_3517103_37);
+Obj _3517105_37 = PRIM_CAR(_3517104_37);
+Obj _3517106_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517105_37);
+if (True == _3517106_37) {
+Obj _3517107_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517108_37 = PRIM_CAR(_3517107_37);
+Obj _3517109_37 = PRIM_CDR(_3517108_37);
+Obj exp1 = _3517109_37;
+Obj _3517110_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517111_37 = PRIM_CDR(_3517110_37);
+Obj exp2 = _3517111_37;
+Obj _3517112_37 = primGenSym(co);
+Obj f = _3517112_37;
+Obj _3517113_37 = primGenSym(co);
+Obj v = _3517113_37;
+Obj _3517114_37 = makeCons(co->gc, v, Nil);
+Obj _3517115_37 = makeCons(co->gc, v, exp2);
+Obj _3517116_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517115_37);
+Obj _3517117_37 = makeCons(co->gc, _3517116_37, Nil);
+Obj _3517118_37 = makeCons(co->gc, _3517114_37, _3517117_37);
+Obj _3517119_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517118_37);
+Obj _3517120_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
+Obj _3517121_37 = makeCons(co->gc, _3517120_37, Nil);
+Obj _3517122_37 = makeCons(co->gc, f, _3517121_37);
+Obj _3517123_37 = makeCons(co->gc, _3517122_37, Nil);
+Obj _3517124_37 = makeCons(co->gc, _3517119_37, _3517123_37);
+Obj _3517125_37 = makeCons(co->gc, f, _3517124_37);
+Obj _3517126_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517125_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517056_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517126_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516629_37);
+coraCall0(co, _3516699_37);
 return;
 }
 }
@@ -7962,42 +8042,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516630_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517018_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517018_37) {
-Obj _3517019_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517020_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517019_37);
-if (True == _3517020_37) {
-Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517021_37;
+Obj _3516700_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517088_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517088_37) {
+Obj _3517089_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517090_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517089_37);
+if (True == _3517090_37) {
+Obj _3517091_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3517091_37;
 R[1] = args;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3516700_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516630_37);
+coraCall0(co, _3516700_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517023_37= co->res;
-Obj _3517024_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517023_37);
-coraReturn(co, _3517024_37);
+Obj _3517093_37= co->res;
+Obj _3517094_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517093_37);
+coraReturn(co, _3517094_37);
 return;
 }
 case 2:
 {
-Obj _3517022_37= co->res;
+Obj _3517092_37= co->res;
 Obj args = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517022_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517092_37, args);
 return;
 }
 }
@@ -8007,76 +8087,76 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516631_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516996_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516996_37) {
-Obj _3516997_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516998_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3516997_37);
-if (True == _3516998_37) {
-Obj _3516999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517000_37 = PRIM_ISCONS(_3516999_37);
-if (True == _3517000_37) {
-Obj _3517001_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517002_37 = PRIM_CAR(_3517001_37);
-Obj x = _3517002_37;
-Obj _3517003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517004_37 = PRIM_CDR(_3517003_37);
-Obj _3517005_37 = PRIM_ISCONS(_3517004_37);
-if (True == _3517005_37) {
-Obj _3517006_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517007_37 = PRIM_CDR(_3517006_37);
-Obj _3517008_37 = PRIM_CAR(_3517007_37);
-Obj y = _3517008_37;
-Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_CDR(_3517009_37);
-Obj _3517011_37 = PRIM_CDR(_3517010_37);
-Obj _3517012_37 = PRIM_EQ(Nil, _3517011_37);
-if (True == _3517012_37) {
+Obj _3516701_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517066_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517066_37) {
+Obj _3517067_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517068_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517067_37);
+if (True == _3517068_37) {
+Obj _3517069_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517070_37 = PRIM_ISCONS(_3517069_37);
+if (True == _3517070_37) {
+Obj _3517071_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517072_37 = PRIM_CAR(_3517071_37);
+Obj x = _3517072_37;
+Obj _3517073_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517074_37 = PRIM_CDR(_3517073_37);
+Obj _3517075_37 = PRIM_ISCONS(_3517074_37);
+if (True == _3517075_37) {
+Obj _3517076_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517077_37 = PRIM_CDR(_3517076_37);
+Obj _3517078_37 = PRIM_CAR(_3517077_37);
+Obj y = _3517078_37;
+Obj _3517079_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517080_37 = PRIM_CDR(_3517079_37);
+Obj _3517081_37 = PRIM_CDR(_3517080_37);
+Obj _3517082_37 = PRIM_EQ(Nil, _3517081_37);
+if (True == _3517082_37) {
 R[1] = y;
 saveCont(co, clofun15, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516631_37);
+coraCall0(co, _3516701_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517014_37= co->res;
-Obj _3517013_37 = R[1];
-Obj _3517015_37 = makeCons(co->gc, _3517014_37, Nil);
-Obj _3517016_37 = makeCons(co->gc, _3517013_37, _3517015_37);
-Obj _3517017_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517016_37);
-coraReturn(co, _3517017_37);
+Obj _3517084_37= co->res;
+Obj _3517083_37 = R[1];
+Obj _3517085_37 = makeCons(co->gc, _3517084_37, Nil);
+Obj _3517086_37 = makeCons(co->gc, _3517083_37, _3517085_37);
+Obj _3517087_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517086_37);
+coraReturn(co, _3517087_37);
 return;
 }
 case 2:
 {
-Obj _3517013_37= co->res;
+Obj _3517083_37= co->res;
 Obj y = R[1];
-R[1] = _3517013_37;
+R[1] = _3517083_37;
 saveCont(co, clofun15, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
 return;
@@ -8088,42 +8168,42 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516632_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516963_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516963_37) {
-Obj _3516964_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516965_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3516964_37);
-if (True == _3516965_37) {
-Obj _3516966_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516967_37 = PRIM_ISCONS(_3516966_37);
-if (True == _3516967_37) {
-Obj _3516968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516969_37 = PRIM_CAR(_3516968_37);
-Obj a = _3516969_37;
-Obj _3516970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516971_37 = PRIM_CDR(_3516970_37);
-Obj _3516972_37 = PRIM_ISCONS(_3516971_37);
-if (True == _3516972_37) {
-Obj _3516973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516974_37 = PRIM_CDR(_3516973_37);
-Obj _3516975_37 = PRIM_CAR(_3516974_37);
-Obj b = _3516975_37;
-Obj _3516976_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516977_37 = PRIM_CDR(_3516976_37);
-Obj _3516978_37 = PRIM_CDR(_3516977_37);
-Obj _3516979_37 = PRIM_ISCONS(_3516978_37);
-if (True == _3516979_37) {
-Obj _3516980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516981_37 = PRIM_CDR(_3516980_37);
-Obj _3516982_37 = PRIM_CDR(_3516981_37);
-Obj _3516983_37 = PRIM_CAR(_3516982_37);
-Obj c = _3516983_37;
-Obj _3516984_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516985_37 = PRIM_CDR(_3516984_37);
-Obj _3516986_37 = PRIM_CDR(_3516985_37);
-Obj _3516987_37 = PRIM_CDR(_3516986_37);
-Obj _3516988_37 = PRIM_EQ(Nil, _3516987_37);
-if (True == _3516988_37) {
+Obj _3516702_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517033_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517033_37) {
+Obj _3517034_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517035_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517034_37);
+if (True == _3517035_37) {
+Obj _3517036_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517037_37 = PRIM_ISCONS(_3517036_37);
+if (True == _3517037_37) {
+Obj _3517038_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517039_37 = PRIM_CAR(_3517038_37);
+Obj a = _3517039_37;
+Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517041_37 = PRIM_CDR(_3517040_37);
+Obj _3517042_37 = PRIM_ISCONS(_3517041_37);
+if (True == _3517042_37) {
+Obj _3517043_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517044_37 = PRIM_CDR(_3517043_37);
+Obj _3517045_37 = PRIM_CAR(_3517044_37);
+Obj b = _3517045_37;
+Obj _3517046_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517047_37 = PRIM_CDR(_3517046_37);
+Obj _3517048_37 = PRIM_CDR(_3517047_37);
+Obj _3517049_37 = PRIM_ISCONS(_3517048_37);
+if (True == _3517049_37) {
+Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517051_37 = PRIM_CDR(_3517050_37);
+Obj _3517052_37 = PRIM_CDR(_3517051_37);
+Obj _3517053_37 = PRIM_CAR(_3517052_37);
+Obj c = _3517053_37;
+Obj _3517054_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517055_37 = PRIM_CDR(_3517054_37);
+Obj _3517056_37 = PRIM_CDR(_3517055_37);
+Obj _3517057_37 = PRIM_CDR(_3517056_37);
+Obj _3517058_37 = PRIM_EQ(Nil, _3517057_37);
+if (True == _3517058_37) {
 R[1] = c;
 R[2] = a;
 saveCont(co, clofun14, 2, R);
@@ -8131,57 +8211,57 @@ coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1),
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516632_37);
+coraCall0(co, _3516702_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516991_37= co->res;
-Obj _3516989_37 = R[1];
+Obj _3517061_37= co->res;
+Obj _3517059_37 = R[1];
 Obj a = R[2];
-Obj _3516992_37 = makeCons(co->gc, _3516991_37, Nil);
-Obj _3516993_37 = makeCons(co->gc, _3516989_37, _3516992_37);
-Obj _3516994_37 = makeCons(co->gc, a, _3516993_37);
-Obj _3516995_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516994_37);
-coraReturn(co, _3516995_37);
+Obj _3517062_37 = makeCons(co->gc, _3517061_37, Nil);
+Obj _3517063_37 = makeCons(co->gc, _3517059_37, _3517062_37);
+Obj _3517064_37 = makeCons(co->gc, a, _3517063_37);
+Obj _3517065_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517064_37);
+coraReturn(co, _3517065_37);
 return;
 }
 case 2:
 {
-Obj _3516989_37= co->res;
+Obj _3517059_37= co->res;
 Obj c = R[1];
 Obj a = R[2];
-Obj _3516990_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3516989_37;
+Obj _3517060_37 = makeCons(co->gc, a, closureRef(R[0], 1));
+R[1] = _3517059_37;
 R[2] = a;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3516990_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517060_37, closureRef(R[0], 2), c);
 return;
 }
 }
@@ -8191,85 +8271,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516633_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3516931_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516931_37) {
-Obj _3516932_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516933_37 = PRIM_ISCONS(_3516932_37);
-if (True == _3516933_37) {
-Obj _3516934_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516935_37 = PRIM_CAR(_3516934_37);
-Obj _3516936_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3516935_37);
-if (True == _3516936_37) {
-Obj _3516937_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516938_37 = PRIM_CDR(_3516937_37);
-Obj exp1 = _3516938_37;
-Obj _3516939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516940_37 = PRIM_ISCONS(_3516939_37);
-if (True == _3516940_37) {
-Obj _3516941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516942_37 = PRIM_CAR(_3516941_37);
-Obj _3516943_37 = PRIM_ISCONS(_3516942_37);
-if (True == _3516943_37) {
-Obj _3516944_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516945_37 = PRIM_CAR(_3516944_37);
-Obj _3516946_37 = PRIM_CAR(_3516945_37);
-Obj _3516947_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3516946_37);
-if (True == _3516947_37) {
-Obj _3516948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516949_37 = PRIM_CAR(_3516948_37);
-Obj _3516950_37 = PRIM_CDR(_3516949_37);
-Obj exp2 = _3516950_37;
-Obj _3516951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3516952_37 = PRIM_CDR(_3516951_37);
-Obj _3516953_37 = PRIM_EQ(Nil, _3516952_37);
-if (True == _3516953_37) {
-Obj _3516954_37 = primGenSym(co);
-Obj f = _3516954_37;
-Obj _3516955_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3516956_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3516957_37 = makeCons(co->gc, _3516956_37, Nil);
-Obj _3516958_37 = makeCons(co->gc, f, _3516957_37);
-Obj _3516959_37 = makeCons(co->gc, _3516958_37, Nil);
-Obj _3516960_37 = makeCons(co->gc, _3516955_37, _3516959_37);
-Obj _3516961_37 = makeCons(co->gc, f, _3516960_37);
-Obj _3516962_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3516961_37);
+Obj _3516703_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517001_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517001_37) {
+Obj _3517002_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517003_37 = PRIM_ISCONS(_3517002_37);
+if (True == _3517003_37) {
+Obj _3517004_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517005_37 = PRIM_CAR(_3517004_37);
+Obj _3517006_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517005_37);
+if (True == _3517006_37) {
+Obj _3517007_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517008_37 = PRIM_CDR(_3517007_37);
+Obj exp1 = _3517008_37;
+Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517010_37 = PRIM_ISCONS(_3517009_37);
+if (True == _3517010_37) {
+Obj _3517011_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517012_37 = PRIM_CAR(_3517011_37);
+Obj _3517013_37 = PRIM_ISCONS(_3517012_37);
+if (True == _3517013_37) {
+Obj _3517014_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517015_37 = PRIM_CAR(_3517014_37);
+Obj _3517016_37 = PRIM_CAR(_3517015_37);
+Obj _3517017_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517016_37);
+if (True == _3517017_37) {
+Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517019_37 = PRIM_CAR(_3517018_37);
+Obj _3517020_37 = PRIM_CDR(_3517019_37);
+Obj exp2 = _3517020_37;
+Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517022_37 = PRIM_CDR(_3517021_37);
+Obj _3517023_37 = PRIM_EQ(Nil, _3517022_37);
+if (True == _3517023_37) {
+Obj _3517024_37 = primGenSym(co);
+Obj f = _3517024_37;
+Obj _3517025_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
+Obj _3517026_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
+Obj _3517027_37 = makeCons(co->gc, _3517026_37, Nil);
+Obj _3517028_37 = makeCons(co->gc, f, _3517027_37);
+Obj _3517029_37 = makeCons(co->gc, _3517028_37, Nil);
+Obj _3517030_37 = makeCons(co->gc, _3517025_37, _3517029_37);
+Obj _3517031_37 = makeCons(co->gc, f, _3517030_37);
+Obj _3517032_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517031_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516962_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517032_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516633_37);
+coraCall0(co, _3516703_37);
 return;
 }
 }
@@ -8280,90 +8360,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516634_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516911_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516911_37) {
-Obj _3516912_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516912_37;
-Obj _3516913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516913_37;
+Obj _3516704_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj _3516981_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516981_37) {
+Obj _3516982_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj op = _3516982_37;
+Obj _3516983_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj args = _3516983_37;
 R[1] = op;
 R[2] = args;
-R[3] = _3516634_37;
+R[3] = _3516704_37;
 saveCont(co, clofun12, 7, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, _3516704_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516921_37= co->res;
-Obj _3516919_37 = R[1];
-Obj _3516922_37 = makeCons(co->gc, _3516919_37, _3516921_37);
-coraReturn(co, _3516922_37);
+Obj _3516991_37= co->res;
+Obj _3516989_37 = R[1];
+Obj _3516992_37 = makeCons(co->gc, _3516989_37, _3516991_37);
+coraReturn(co, _3516992_37);
 return;
 }
 case 2:
 {
-Obj _3516920_37= co->res;
+Obj _3516990_37= co->res;
 Obj args = R[1];
-Obj _3516919_37 = R[2];
-R[1] = _3516919_37;
+Obj _3516989_37 = R[2];
+R[1] = _3516989_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516920_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516990_37, args);
 return;
 }
 case 3:
 {
-Obj _3516927_37= co->res;
+Obj _3516997_37= co->res;
 Obj tmp = R[1];
-Obj _3516928_37 = makeCons(co->gc, _3516927_37, Nil);
-Obj _3516929_37 = makeCons(co->gc, tmp, _3516928_37);
-Obj _3516930_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516929_37);
+Obj _3516998_37 = makeCons(co->gc, _3516997_37, Nil);
+Obj _3516999_37 = makeCons(co->gc, tmp, _3516998_37);
+Obj _3517000_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516999_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3516930_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517000_37);
 return;
 }
 case 4:
 {
-Obj _3516925_37= co->res;
+Obj _3516995_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj tmp = _3516925_37;
-Obj _3516926_37 = makeCons(co->gc, op, args);
+Obj tmp = _3516995_37;
+Obj _3516996_37 = makeCons(co->gc, op, args);
 R[1] = tmp;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516926_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516996_37, tmp);
 return;
 }
 case 5:
 {
-Obj _3516916_37= co->res;
+Obj _3516986_37= co->res;
 Obj required = R[1];
 Obj op = R[2];
 Obj args = R[3];
-Obj provided = _3516916_37;
-Obj _3516917_37 = PRIM_EQ(required, provided);
-if (True == _3516917_37) {
-Obj _3516918_37 = makeCons(co->gc, op, Nil);
-Obj _3516919_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516918_37);
+Obj provided = _3516986_37;
+Obj _3516987_37 = PRIM_EQ(required, provided);
+if (True == _3516987_37) {
+Obj _3516988_37 = makeCons(co->gc, op, Nil);
+Obj _3516989_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516988_37);
 R[1] = args;
-R[2] = _3516919_37;
+R[2] = _3516989_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516923_37 = PRIM_GT(required, provided);
-if (True == _3516923_37) {
-Obj _3516924_37 = PRIM_SUB(required, provided);
+Obj _3516993_37 = PRIM_GT(required, provided);
+if (True == _3516993_37) {
+Obj _3516994_37 = PRIM_SUB(required, provided);
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516924_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516994_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8374,10 +8454,10 @@ return;
 }
 case 6:
 {
-Obj _3516915_37= co->res;
+Obj _3516985_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj required = _3516915_37;
+Obj required = _3516985_37;
 R[1] = required;
 R[2] = op;
 R[3] = args;
@@ -8387,11 +8467,11 @@ return;
 }
 case 7:
 {
-Obj _3516914_37= co->res;
+Obj _3516984_37= co->res;
 Obj op = R[1];
 Obj args = R[2];
-Obj _3516634_37 = R[3];
-if (True == _3516914_37) {
+Obj _3516704_37 = R[3];
+if (True == _3516984_37) {
 R[1] = op;
 R[2] = args;
 saveCont(co, clofun12, 6, R);
@@ -8399,7 +8479,7 @@ coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516634_37);
+coraCall0(co, _3516704_37);
 return;
 }
 }
@@ -8416,9 +8496,9 @@ return;
 }
 case 1:
 {
-Obj _3516910_37= co->res;
+Obj _3516980_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516910_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516980_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8428,18 +8508,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516618_37 = R[1];
-Obj _3516619_37 = R[2];
-Obj _3516898_37 = PRIM_EQ(MAKE_NUMBER(0), _3516618_37);
-if (True == _3516898_37) {
-coraReturn(co, _3516619_37);
+Obj _3516688_37 = R[1];
+Obj _3516689_37 = R[2];
+Obj _3516968_37 = PRIM_EQ(MAKE_NUMBER(0), _3516688_37);
+if (True == _3516968_37) {
+coraReturn(co, _3516689_37);
 return;
 } else {
-Obj _3516899_37 = PRIM_SUB(_3516618_37, MAKE_NUMBER(1));
-Obj _3516900_37 = primGenSym(co);
-Obj _3516901_37 = makeCons(co->gc, _3516900_37, _3516619_37);
+Obj _3516969_37 = PRIM_SUB(_3516688_37, MAKE_NUMBER(1));
+Obj _3516970_37 = primGenSym(co);
+Obj _3516971_37 = makeCons(co->gc, _3516970_37, _3516689_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516899_37, _3516901_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516969_37, _3516971_37);
 return;
 }
 }
@@ -8457,9 +8537,9 @@ return;
 }
 case 1:
 {
-Obj _3516896_37= co->res;
+Obj _3516966_37= co->res;
 Obj find = R[1];
-if (True == _3516896_37) {
+if (True == _3516966_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8470,8 +8550,8 @@ return;
 }
 case 2:
 {
-Obj _3516895_37= co->res;
-Obj find = _3516895_37;
+Obj _3516965_37= co->res;
+Obj find = _3516965_37;
 R[1] = find;
 saveCont(co, clofun9, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8491,9 +8571,9 @@ return;
 }
 case 1:
 {
-Obj _3516893_37= co->res;
+Obj _3516963_37= co->res;
 Obj find = R[1];
-if (True == _3516893_37) {
+if (True == _3516963_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
@@ -8504,8 +8584,8 @@ return;
 }
 case 2:
 {
-Obj _3516892_37= co->res;
-Obj find = _3516892_37;
+Obj _3516962_37= co->res;
+Obj find = _3516962_37;
 R[1] = find;
 saveCont(co, clofun8, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
@@ -8525,16 +8605,16 @@ return;
 }
 case 1:
 {
-Obj _3516889_37= co->res;
-Obj _3516890_37 = primNot(_3516889_37);
-coraReturn(co, _3516890_37);
+Obj _3516959_37= co->res;
+Obj _3516960_37 = primNot(_3516959_37);
+coraReturn(co, _3516960_37);
 return;
 }
 case 2:
 {
-Obj _3516888_37= co->res;
+Obj _3516958_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516888_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516958_37);
 return;
 }
 }
@@ -8544,23 +8624,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516614_37 = R[1];
-Obj _3516615_37 = R[2];
-Obj _3516812_37 = PRIM_EQ(Nil, _3516615_37);
-if (True == _3516812_37) {
+Obj _3516684_37 = R[1];
+Obj _3516685_37 = R[2];
+Obj _3516882_37 = PRIM_EQ(Nil, _3516685_37);
+if (True == _3516882_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516813_37 = PRIM_ISCONS(_3516615_37);
-if (True == _3516813_37) {
-Obj _3516814_37 = PRIM_CAR(_3516615_37);
-Obj hd = _3516814_37;
-Obj _3516815_37 = PRIM_CDR(_3516615_37);
-Obj tl = _3516815_37;
-R[1] = _3516614_37;
+Obj _3516883_37 = PRIM_ISCONS(_3516685_37);
+if (True == _3516883_37) {
+Obj _3516884_37 = PRIM_CAR(_3516685_37);
+Obj hd = _3516884_37;
+Obj _3516885_37 = PRIM_CDR(_3516685_37);
+Obj tl = _3516885_37;
+R[1] = _3516684_37;
 R[2] = tl;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516614_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516684_37, hd);
 return;
 } else {
 co->ctx.sp = R;
@@ -8571,13 +8651,13 @@ return;
 }
 case 1:
 {
-Obj _3516816_37= co->res;
-Obj _3516614_37 = R[1];
+Obj _3516886_37= co->res;
+Obj _3516684_37 = R[1];
 Obj tl = R[2];
-Obj _3516817_37 = PRIM_LT(_3516816_37, MAKE_NUMBER(0));
-if (True == _3516817_37) {
+Obj _3516887_37 = PRIM_LT(_3516886_37, MAKE_NUMBER(0));
+if (True == _3516887_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516614_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516684_37, tl);
 return;
 } else {
 coraReturn(co, True);
@@ -8604,32 +8684,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516608_37 = R[1];
-Obj _3516609_37 = R[2];
-Obj _3516610_37 = R[3];
-Obj _3516801_37 = PRIM_EQ(Nil, _3516610_37);
-if (True == _3516801_37) {
+Obj _3516678_37 = R[1];
+Obj _3516679_37 = R[2];
+Obj _3516680_37 = R[3];
+Obj _3516871_37 = PRIM_EQ(Nil, _3516680_37);
+if (True == _3516871_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516612_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516610_37, _3516608_37, _3516609_37);
-Obj _3516806_37 = PRIM_ISCONS(_3516610_37);
-if (True == _3516806_37) {
-Obj _3516807_37 = PRIM_CAR(_3516610_37);
-Obj a = _3516807_37;
-Obj _3516808_37 = PRIM_CDR(_3516610_37);
-Obj _3516809_37 = PRIM_EQ(_3516609_37, a);
-if (True == _3516809_37) {
-coraReturn(co, _3516608_37);
+Obj _3516682_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516680_37, _3516678_37, _3516679_37);
+Obj _3516876_37 = PRIM_ISCONS(_3516680_37);
+if (True == _3516876_37) {
+Obj _3516877_37 = PRIM_CAR(_3516680_37);
+Obj a = _3516877_37;
+Obj _3516878_37 = PRIM_CDR(_3516680_37);
+Obj _3516879_37 = PRIM_EQ(_3516679_37, a);
+if (True == _3516879_37) {
+coraReturn(co, _3516678_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, _3516682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516612_37);
+coraCall0(co, _3516682_37);
 return;
 }
 }
@@ -8641,14 +8721,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516802_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516802_37) {
-Obj _3516803_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516804_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516804_37;
-Obj _3516805_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3516872_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516872_37) {
+Obj _3516873_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516874_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj b = _3516874_37;
+Obj _3516875_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516805_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516875_37, closureRef(R[0], 2), b);
 return;
 } else {
 co->ctx.sp = R;
@@ -8663,24 +8743,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516603_37 = R[1];
-Obj _3516604_37 = R[2];
-Obj _3516605_37 = R[3];
-Obj _3516795_37 = PRIM_EQ(Nil, _3516605_37);
-if (True == _3516795_37) {
-coraReturn(co, _3516604_37);
+Obj _3516673_37 = R[1];
+Obj _3516674_37 = R[2];
+Obj _3516675_37 = R[3];
+Obj _3516865_37 = PRIM_EQ(Nil, _3516675_37);
+if (True == _3516865_37) {
+coraReturn(co, _3516674_37);
 return;
 } else {
-Obj _3516796_37 = PRIM_ISCONS(_3516605_37);
-if (True == _3516796_37) {
-Obj _3516797_37 = PRIM_CAR(_3516605_37);
-Obj x = _3516797_37;
-Obj _3516798_37 = PRIM_CDR(_3516605_37);
-Obj y = _3516798_37;
-R[1] = _3516603_37;
+Obj _3516866_37 = PRIM_ISCONS(_3516675_37);
+if (True == _3516866_37) {
+Obj _3516867_37 = PRIM_CAR(_3516675_37);
+Obj x = _3516867_37;
+Obj _3516868_37 = PRIM_CDR(_3516675_37);
+Obj y = _3516868_37;
+R[1] = _3516673_37;
 R[2] = y;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516603_37, _3516604_37, x);
+coraCall2(co, _3516673_37, _3516674_37, x);
 return;
 } else {
 co->ctx.sp = R;
@@ -8691,11 +8771,11 @@ return;
 }
 case 1:
 {
-Obj _3516799_37= co->res;
-Obj _3516603_37 = R[1];
+Obj _3516869_37= co->res;
+Obj _3516673_37 = R[1];
 Obj y = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516603_37, _3516799_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516673_37, _3516869_37, y);
 return;
 }
 }
@@ -8705,44 +8785,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516598_37 = R[1];
-Obj _3516599_37 = R[2];
-Obj _3516780_37 = PRIM_EQ(Nil, _3516599_37);
-if (True == _3516780_37) {
+Obj _3516668_37 = R[1];
+Obj _3516669_37 = R[2];
+Obj _3516850_37 = PRIM_EQ(Nil, _3516669_37);
+if (True == _3516850_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516601_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516599_37, _3516598_37);
-Obj _3516784_37 = PRIM_ISCONS(_3516599_37);
-if (True == _3516784_37) {
-Obj _3516785_37 = PRIM_CAR(_3516599_37);
-Obj _3516786_37 = PRIM_ISCONS(_3516785_37);
-if (True == _3516786_37) {
-Obj _3516787_37 = PRIM_CAR(_3516599_37);
-Obj _3516788_37 = PRIM_CAR(_3516787_37);
-Obj x = _3516788_37;
-Obj _3516789_37 = PRIM_CAR(_3516599_37);
-Obj _3516790_37 = PRIM_CDR(_3516789_37);
-Obj y = _3516790_37;
-Obj _3516791_37 = PRIM_CDR(_3516599_37);
-Obj _3516792_37 = PRIM_EQ(_3516598_37, x);
-if (True == _3516792_37) {
-Obj _3516793_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516793_37);
+Obj _3516671_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516669_37, _3516668_37);
+Obj _3516854_37 = PRIM_ISCONS(_3516669_37);
+if (True == _3516854_37) {
+Obj _3516855_37 = PRIM_CAR(_3516669_37);
+Obj _3516856_37 = PRIM_ISCONS(_3516855_37);
+if (True == _3516856_37) {
+Obj _3516857_37 = PRIM_CAR(_3516669_37);
+Obj _3516858_37 = PRIM_CAR(_3516857_37);
+Obj x = _3516858_37;
+Obj _3516859_37 = PRIM_CAR(_3516669_37);
+Obj _3516860_37 = PRIM_CDR(_3516859_37);
+Obj y = _3516860_37;
+Obj _3516861_37 = PRIM_CDR(_3516669_37);
+Obj _3516862_37 = PRIM_EQ(_3516668_37, x);
+if (True == _3516862_37) {
+Obj _3516863_37 = makeCons(co->gc, x, y);
+coraReturn(co, _3516863_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516601_37);
+coraCall0(co, _3516671_37);
 return;
 }
 }
@@ -8754,11 +8834,11 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516781_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516781_37) {
-Obj _3516782_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516783_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516783_37;
+Obj _3516851_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3516851_37) {
+Obj _3516852_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3516853_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj y = _3516853_37;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
 return;
diff --git a/lib/toc.cora b/lib/toc.cora
index cd061e6..ef021e6 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -565,7 +565,7 @@
 	  (generate-str to "}\n\n")
 	  )))
 
-  (defun generate-entry (to globals label)
+  (defun generate-entry (to globals label lam)
     (begin
      (generate-str to "void entry(struct Cora *co, int label, Obj *R) {\n")
      (generate-str to "if (packageID == -1) { packageID = packageIDAlloc(); }\n")
@@ -582,7 +582,9 @@
 	       (+ acc 1)))
 	    0 globals)
      (generate-str to "addPackage(co, packageID, __symbolTable);\n")
-
+     (generate-str to "stackAlloc(co, ")
+     (generate-num to (lambda-frame-size lam))
+     (generate-str to ");\n")
      (generate-str to "co->ctx.fn = ")
      (generate-group-name to label)
      (generate-str to ";\n")
@@ -599,7 +601,7 @@
 		  (generate-str to ";\n")))
 	       bc)
      (generate-str to "\n\n")
-     (generate-entry to globals (caar bc))
+     (generate-entry to globals (caar bc) (cadr (car bc)))
      (for-each (lambda (group)
 		 (generate-toplevel-lambda to group globals))
 	       bc)))
-- 
2.43.0


From baac1c3a642356df96f0d541778d698cb6d584bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 11/90] fix: divide, add and subtract the numbers, not their
 representation

(/ 10 2) was 1: primDiv, primAdd and primSub worked on the NaN-boxed bits.
---
 src/runtime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index cfd577b..109f6b5 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -869,7 +869,7 @@ primLT(Obj x, Obj y) {
 Obj
 primDiv(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return makeNumber(x / y);
+		return makeNumber(fixnum(x) / fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -879,7 +879,7 @@ primDiv(Obj x, Obj y) {
 Obj
 primAdd(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x + y;
+		return makeNumber(fixnum(x) + fixnum(y));
 	} else {
 		// TODO
 		assert(false);
@@ -925,7 +925,7 @@ primIsCons(Obj x) {
 Obj
 primSub(Obj x, Obj y) {
 	if (isfixnum(x) && isfixnum(y)) {
-		return x - y;
+		return makeNumber(fixnum(x) - fixnum(y));
 	} else {
 		// TODO
 		assert(false);
-- 
2.43.0


From fe99e7e7ad20c7400c9bed165acc8cecdc85bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 12/90] fix: read integer literals that do not fit in an int

3000000000 was read as -1294967296, and a literal of 30 digits or more
overflowed the buffer it was collected in.
---
 src/reader.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 38a7c35..0f6d6da 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -100,23 +100,27 @@ readListMacro(GC *gc, FILE *in, int *errCode) {
 	return makeCons(gc, hd, reverse(gc, ret));
 }
 
+static int64_t
+numberAppendDigit(int64_t n, int digit) {
+	if (n > (INT64_MAX - 9) / 10) {
+		fprintf(stderr, "number too large\n");
+		exit(1);
+	}
+	return n * 10 + (digit - '0');
+}
+
 static Obj
 readNumber(FILE *in) {
-	char buf[30];
-	memset(buf, 0, 30);
-	int i = 0;
-	char c = getc(in);
+	int64_t n = 0;
+	int c = getc(in);
 	while (c != EOF && isdigit(c)) {
-		buf[i] = c;
+		n = numberAppendDigit(n, c);
 		c = getc(in);
-		i++;
 	}
-	buf[i] = '\0';
 	if (c != EOF) {
 		ungetc(c, in);
 	}
-	Obj ret = makeNumber(atoi(buf));
-	return ret;
+	return makeNumber(n);
 }
 
 Obj
@@ -208,13 +212,16 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 		if (buffer[0] == '-' && i > 1) {
 			bool allDigit = true;
 			for (int p = 1; p < i; p++) {
-				if (!isdigit((int)buffer[p])) {
+				if (!isdigit((unsigned char)buffer[p])) {
 					allDigit = false;
 				}
 			}
 			if (allDigit) {
-				Obj num = makeNumber(atoi(buffer));
-				return num;
+				int64_t n = 0;
+				for (int p = 1; p < i; p++) {
+					n = numberAppendDigit(n, buffer[p]);
+				}
+				return makeNumber(-n);
 			}
 		}
 		return intern(buffer);
-- 
2.43.0


From 0f1ad842f1bb5ad18e902d2513d42d05a3ac21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 13/90] fix: keep string and symbol literals inside the
 reader's buffer

The limit for strings was 1000 bytes but the buffer had 512, and symbols had
no limit.
---
 src/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 0f6d6da..39834bf 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -127,7 +127,7 @@ Obj
 sexpRead(GC *gc, FILE *in, int *errCode) {
 	int c;
 	int i;
-	char buffer[512];
+	char buffer[1000];
 
 	eatWhitespace(in);
 	c = getc(in);
@@ -193,6 +193,12 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 		/* int firstDot = -1; */
 		i = 0;
 		while (isIdentifierChar(c)) {
+			if (i >= 1000 - 1) {
+				fprintf(stderr,
+					"symbol too long. Maximum length is %d\n",
+					1000);
+				exit(1);
+			}
 			buffer[i] = c;
 			if (c == '.') {
 				/* firstDot = i; */
-- 
2.43.0


From 78def861dcfc8b46e889cf35cf2201a8d09c4884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 14/90] fix: stop at the end of the input in an unterminated
 list

The reader recursed on EOF until the stack overflowed, and took byte 0xff for
EOF because it kept the character in a char.
---
 src/reader.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 39834bf..464355c 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -47,7 +47,7 @@ eatWhitespace(FILE *in) {
 	}
 }
 
-static char
+static int
 peekFirstChar(FILE *in) {
 	eatWhitespace(in);
 	return getc(in);
@@ -60,6 +60,11 @@ readCons(GC *gc, FILE *in, int *errCode) {
 		// read the empty list
 		return Nil;
 	}
+	if (c == EOF) {
+		// the list is not terminated
+		*errCode = 1;
+		return Nil;
+	}
 
 	ungetc(c, in);
 	Obj hd = sexpRead(gc, in, errCode);
@@ -86,7 +91,7 @@ static Obj
 readListMacro(GC *gc, FILE *in, int *errCode) {
 	Obj hd = intern("list");
 	Obj ret = Nil;
-	char b = peekFirstChar(in);
+	int b = peekFirstChar(in);
 	while (b != EOF && b != ']') {
 		if (b == '.') {
 			hd = intern("list-rest");
@@ -97,6 +102,9 @@ readListMacro(GC *gc, FILE *in, int *errCode) {
 		}
 		b = peekFirstChar(in);
 	}
+	if (b == EOF) {
+		*errCode = 1;
+	}
 	return makeCons(gc, hd, reverse(gc, ret));
 }
 
-- 
2.43.0


From 2a268beaf7fc0ee4b4edbb158424ac6e2a32ecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 15/90] fix: accept white space inside the empty list

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 464355c..409b212 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -55,7 +55,7 @@ peekFirstChar(FILE *in) {
 
 static Obj
 readCons(GC *gc, FILE *in, int *errCode) {
-	int c = getc(in);
+	int c = peekFirstChar(in);
 	if (c == ')') {
 		// read the empty list
 		return Nil;
-- 
2.43.0


From 3e0ac81d74a3bd619345b9055ed7a73a7960b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 16/90] verif: collector stress, poisoning and statistics hooks
 under CORA_VERIF

---
 src/gc.c | 112 +++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 112 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index b539c83..b67b301 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -233,6 +233,50 @@ struct GC {
 	scmHeadEx *rset;
 };
 
+#ifdef CORA_VERIF
+// Verification hooks, compiled in only with -DCORA_VERIF.
+// CORA_VERIF_GC=n starts a collection after every n bytes of allocation.
+// CORA_VERIF_STEPS=n marks n objects per increment instead of the default.
+// CORA_VERIF_STATS=file appends what was observed to the file at exit.
+// What a collection finds dead is filled with junk, and is made unaddressable
+// under AddressSanitizer, so that a later use of it is noticed.
+#ifdef __SANITIZE_ADDRESS__
+#include <sanitizer/asan_interface.h>
+#define VERIF_POISON(p, n) __asan_poison_memory_region((p), (n))
+#define VERIF_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
+#define VERIF_IS_POISONED(p) __asan_address_is_poisoned(p)
+#else
+#define VERIF_POISON(p, n) ((void)0)
+#define VERIF_UNPOISON(p, n) ((void)0)
+#define VERIF_IS_POISONED(p) (*(uint64_t *)(p) == 0x5b5b5b5b5b5b5b5b)
+#endif
+struct gcVerifStats {
+	uint64_t cycles, allocs, bytes, large, dead, deadBytes, live, liveBytes,
+		barrier, rset;
+} gcVerifStats;
+long gcVerifInterval = -1;
+int gcVerifSteps = 0;
+
+static void
+gcVerifReport(void) {
+	char *path = getenv("CORA_VERIF_STATS");
+	FILE *f = path ? fopen(path, "a") : NULL;
+	if (f == NULL) {
+		return;
+	}
+	struct gcVerifStats *s = &gcVerifStats;
+	fprintf(f,
+		"{\"cycles\": %" PRIu64 ", \"allocs\": %" PRIu64 ", \"bytes\": %" PRIu64
+		", \"large\": %" PRIu64 ", \"dead\": %" PRIu64
+		", \"dead_bytes\": %" PRIu64 ", \"live\": %" PRIu64
+		", \"live_bytes\": %" PRIu64 ", \"barrier\": %" PRIu64
+		", \"rset\": %" PRIu64 "}\n",
+		s->cycles, s->allocs, s->bytes, s->large, s->dead, s->deadBytes, s->live,
+		s->liveBytes, s->barrier, s->rset);
+	fclose(f);
+}
+#endif
+
 static void
 gcInuseSizeInc(GC *gc, int size) {
 	assert(size > 0);
@@ -265,6 +309,9 @@ blockReset(GC *gc, struct Block *block) {
 	assert(block->sizeClass == 0);
 	assert(block->curr == 0);
 
+#ifdef CORA_VERIF
+	VERIF_UNPOISON(block->base, MEM_BLOCK_SIZE);
+#endif
 	memset(block->base, 0, MEM_BLOCK_SIZE);
 
 	// Insert at the head of freelist
@@ -280,6 +327,15 @@ gcInit() {
 		return NULL;
 	}
 
+#ifdef CORA_VERIF
+	if (gcVerifInterval == -1) {
+		char *s = getenv("CORA_VERIF_GC");
+		gcVerifInterval = s ? atol(s) : 0;
+		s = getenv("CORA_VERIF_STEPS");
+		gcVerifSteps = s ? atoi(s) : 0;
+		atexit(gcVerifReport);
+	}
+#endif
 	gc->heap = NULL;
 	gc->large = NULL;
 	gc->state = gcStateNone;
@@ -377,6 +433,13 @@ getBlock(GC *gc, int slot) {
 // Helper function to check if GC should be triggered
 bool
 gcTriggerCheck(GC *gc) {
+#ifdef CORA_VERIF
+	if (gcVerifInterval > 0 && gc->state == gcStateNone &&
+		gc->stats.allocated >= gcVerifInterval) {
+		gc->state = gcStateMark;
+		return true;
+	}
+#endif
 	if (gc->stats.allocated > gc->stats.nextSize && gc->state == gcStateNone) {
 		gc->state = gcStateMark;
 		return true;
@@ -387,6 +450,12 @@ gcTriggerCheck(GC *gc) {
 // Used in allocDone
 static void
 allocDone(GC *gc, int size, scmHead *ret) {
+#ifdef CORA_VERIF
+	VERIF_UNPOISON(ret, size);
+	gcVerifStats.allocs++;
+	gcVerifStats.bytes += size;
+	gcVerifStats.large += size >= MEM_BLOCK_SIZE;
+#endif
 	ret->size = size;
 	ret->version = (gc->state == gcStateNone)
 		? (gc->version & VERSION_MASK)
@@ -819,6 +888,35 @@ gcMarkRoot(GC *gc, gcMarkRootCallback callback, void *data) {
 /* 	} */
 /* } */
 
+#ifdef CORA_VERIF
+// Called at the end of a collection.
+static void
+gcVerifPoisonDead(GC *gc) {
+	gcVerifStats.cycles++;
+	for (int i = 1; i < sizeClassSZ; i++) {
+		for (struct Block *b = gc->sizeClass[i]; b != NULL; b = b->next) {
+			int sz = b->sizeClass;
+			for (int j = 0; j + sz <= MEM_BLOCK_SIZE; j += sz) {
+				scmHead *p = (scmHead *)(b->base + j);
+				if (inuse(gc, p)) {
+					gcVerifStats.live++;
+					gcVerifStats.liveBytes += sz;
+					continue;
+				}
+				if (VERIF_IS_POISONED(p + 1)) {
+					continue;
+				}
+				gcVerifStats.dead++;
+				gcVerifStats.deadBytes += sz;
+				VERIF_UNPOISON(p + 1, sz - sizeof(scmHead));
+				memset(p + 1, 0x5b, sz - sizeof(scmHead));
+				VERIF_POISON(p + 1, sz - sizeof(scmHead));
+			}
+		}
+	}
+}
+#endif
+
 static void
 gcFlip(GC *gc) {
 	TRACE_SCOPE("gcFlip");
@@ -913,6 +1011,9 @@ gcFlip(GC *gc) {
 
 	gc->version = gc->version + 2;
 	gc->state = gcStateNone;
+#ifdef CORA_VERIF
+	gcVerifPoisonDead(gc);
+#endif
 
 	// Calculate for the next GC trigger size.
 	// old algorithm:
@@ -946,6 +1047,11 @@ gcRunIncremental(GC *gc) {
 	TRACE_SCOPE("gcRunIncremental");
 	const int STEPS_PER_INCREMENT = 200;
 	int steps = STEPS_PER_INCREMENT;
+#ifdef CORA_VERIF
+	if (gcVerifSteps > 0) {
+		steps = gcVerifSteps;
+	}
+#endif
 
 	while (steps > 0) {
 		scmHead *curr = gcDequeue(gc);
@@ -1071,6 +1177,9 @@ void
 writeBarrierForIncremental(GC *gc, uintptr_t *slot, uintptr_t val) {
 	// Yuasa-style deletion barrier
 	if (gc->state == gcStateIncremental) {
+#ifdef CORA_VERIF
+		gcVerifStats.barrier++;
+#endif
 		uintptr_t old = *slot;
 		gcMark(gc, old, 0);
 	}
@@ -1088,6 +1197,9 @@ writeBarrierForGeneration(GC *gc, scmHeadEx *v, uintptr_t val) {
 	if (versionCmp(v->version % 64, h->version % 64) <= 0) {
 		return;
 	}
+#ifdef CORA_VERIF
+	gcVerifStats.rset++;
+#endif
 
 	switch (gc->state) {
 	case gcStateNone:
-- 
2.43.0


From 81275f73866c24f30107df80060fcb0cf88198af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 17/90] fix: give every compiled let a C variable of its own

A let that shadowed a variable of the same C block, or two lets of the same
name in one function, produced C code which redefined the variable.
---
 init.c       | 3154 ++++++++++----------
 lib/toc.c    | 8054 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |   17 +-
 3 files changed, 5631 insertions(+), 5594 deletions(-)

diff --git a/init.c b/init.c
index 64a6b75..e68d42d 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512536_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3512539_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3512542_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3512545_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3512548_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3512552_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3512557_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3512561_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3512569_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3512571_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3512576_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3513140_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj _3513143_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj _3513146_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj _3513149_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj _3513152_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj _3513156_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj _3513161_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj _3513165_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3513173_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3513175_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3513180_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3513056_37= co->res;
-Obj _3513062_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513074_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513075_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513076_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513075_37);
-Obj _3513077_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513076_37);
-Obj _3513078_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513079_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513078_37);
-Obj _3513080_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513079_37);
-Obj _3513081_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513082_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513081_37);
-Obj _3513083_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513082_37);
-Obj _3513084_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513085_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513084_37);
-Obj _3513086_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513085_37);
-Obj _3513087_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513088_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513087_37);
-Obj _3513089_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513088_37);
-Obj _3513090_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513091_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513090_37);
-Obj _3513092_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513091_37);
-Obj _3513093_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513094_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513093_37);
-Obj _3513095_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513094_37);
-Obj _3513096_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513097_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513096_37);
-Obj _3513098_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513097_37);
-Obj _3513099_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513100_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513099_37);
-Obj _3513101_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513100_37);
-Obj _3513102_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513103_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513102_37);
-Obj _3513104_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513103_37);
-Obj _3513105_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513106_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513105_37);
-Obj _3513107_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513106_37);
-Obj _3513108_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513109_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513108_37);
-Obj _3513110_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513109_37);
-Obj _3513111_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513112_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513111_37);
-Obj _3513113_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513112_37);
-Obj _3513114_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513115_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513114_37);
-Obj _3513116_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513115_37);
-Obj _3513117_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513118_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513117_37);
-Obj _3513119_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513118_37);
-Obj _3513120_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513121_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513120_37);
-Obj _3513122_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513121_37);
-Obj _3513123_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513124_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513123_37);
-Obj _3513125_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513124_37);
-Obj _3513126_37 = makeCons(co->gc, _3513125_37, Nil);
-Obj _3513127_37 = makeCons(co->gc, _3513122_37, _3513126_37);
-Obj _3513128_37 = makeCons(co->gc, _3513119_37, _3513127_37);
-Obj _3513129_37 = makeCons(co->gc, _3513116_37, _3513128_37);
-Obj _3513130_37 = makeCons(co->gc, _3513113_37, _3513129_37);
-Obj _3513131_37 = makeCons(co->gc, _3513110_37, _3513130_37);
-Obj _3513132_37 = makeCons(co->gc, _3513107_37, _3513131_37);
-Obj _3513133_37 = makeCons(co->gc, _3513104_37, _3513132_37);
-Obj _3513134_37 = makeCons(co->gc, _3513101_37, _3513133_37);
-Obj _3513135_37 = makeCons(co->gc, _3513098_37, _3513134_37);
-Obj _3513136_37 = makeCons(co->gc, _3513095_37, _3513135_37);
-Obj _3513137_37 = makeCons(co->gc, _3513092_37, _3513136_37);
-Obj _3513138_37 = makeCons(co->gc, _3513089_37, _3513137_37);
-Obj _3513139_37 = makeCons(co->gc, _3513086_37, _3513138_37);
-Obj _3513140_37 = makeCons(co->gc, _3513083_37, _3513139_37);
-Obj _3513141_37 = makeCons(co->gc, _3513080_37, _3513140_37);
-Obj _3513142_37 = makeCons(co->gc, _3513077_37, _3513141_37);
-Obj _3513143_37 = primSet(co, getBinding(co, packageID, 69).name, _3513142_37);
-Obj _3513158_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513162_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513340_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513341_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513342_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513341_37);
-Obj _3513343_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513342_37);
-Obj _3513344_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513343_37);
-Obj _3513345_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513344_37);
-Obj _3513346_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513345_37);
-Obj _3513347_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513346_37);
-Obj _3513348_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513347_37);
-Obj _3513349_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513348_37);
-Obj _3513350_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513349_37);
-Obj _3513351_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513350_37);
-Obj _3513352_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513351_37);
-Obj _3513353_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513352_37);
-Obj _3513354_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513353_37);
-Obj _3513355_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513354_37);
-Obj _3513356_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513355_37);
-Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513356_37);
-Obj _3513358_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513357_37);
-Obj _3513359_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513358_37);
-Obj _3513360_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513359_37);
-Obj _3513361_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513360_37);
-Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513361_37);
-Obj _3513363_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513362_37);
-Obj _3513364_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513363_37);
-Obj _3513365_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513364_37);
-Obj _3513366_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513365_37);
-Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513366_37);
-Obj _3513368_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513367_37);
-Obj _3513369_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513368_37);
-Obj _3513370_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513369_37);
-Obj _3513371_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513370_37);
-Obj _3513372_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513371_37);
-Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513372_37);
-Obj _3513374_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513373_37);
-Obj _3513375_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513374_37);
-Obj _3513376_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513375_37);
-Obj _3513377_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513376_37);
-Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513377_37);
-Obj _3513379_37 = primSet(co, getBinding(co, packageID, 53).name, _3513378_37);
-Obj _3513380_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513381_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513382_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513383_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513384_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513385_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513386_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513387_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513388_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513389_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513390_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513391_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513392_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513393_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513394_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513395_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3513396_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3513397_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3513398_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3513399_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3513400_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3513401_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3513402_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3513403_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3513404_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3513405_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3513406_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3513407_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3513408_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3513409_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3513410_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3513411_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3513412_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3513413_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3513414_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3513415_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3513416_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3513417_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3513418_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3513418_37);
+Obj _3513660_37= co->res;
+Obj _3513666_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3513678_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj _3513679_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3513680_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513679_37);
+Obj _3513681_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513680_37);
+Obj _3513682_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3513683_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513682_37);
+Obj _3513684_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513683_37);
+Obj _3513685_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3513686_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513685_37);
+Obj _3513687_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513686_37);
+Obj _3513688_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3513689_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513688_37);
+Obj _3513690_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513689_37);
+Obj _3513691_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3513692_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513691_37);
+Obj _3513693_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513692_37);
+Obj _3513694_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3513695_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513694_37);
+Obj _3513696_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513695_37);
+Obj _3513697_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3513698_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513697_37);
+Obj _3513699_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513698_37);
+Obj _3513700_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3513701_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513700_37);
+Obj _3513702_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513701_37);
+Obj _3513703_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3513704_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513703_37);
+Obj _3513705_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513704_37);
+Obj _3513706_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3513707_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513706_37);
+Obj _3513708_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513707_37);
+Obj _3513709_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3513710_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513709_37);
+Obj _3513711_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513710_37);
+Obj _3513712_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3513713_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513712_37);
+Obj _3513714_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513713_37);
+Obj _3513715_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3513716_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513715_37);
+Obj _3513717_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513716_37);
+Obj _3513718_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3513719_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513718_37);
+Obj _3513720_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513719_37);
+Obj _3513721_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3513722_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513721_37);
+Obj _3513723_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513722_37);
+Obj _3513724_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3513725_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513724_37);
+Obj _3513726_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513725_37);
+Obj _3513727_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3513728_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513727_37);
+Obj _3513729_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513728_37);
+Obj _3513730_37 = makeCons(co->gc, _3513729_37, Nil);
+Obj _3513731_37 = makeCons(co->gc, _3513726_37, _3513730_37);
+Obj _3513732_37 = makeCons(co->gc, _3513723_37, _3513731_37);
+Obj _3513733_37 = makeCons(co->gc, _3513720_37, _3513732_37);
+Obj _3513734_37 = makeCons(co->gc, _3513717_37, _3513733_37);
+Obj _3513735_37 = makeCons(co->gc, _3513714_37, _3513734_37);
+Obj _3513736_37 = makeCons(co->gc, _3513711_37, _3513735_37);
+Obj _3513737_37 = makeCons(co->gc, _3513708_37, _3513736_37);
+Obj _3513738_37 = makeCons(co->gc, _3513705_37, _3513737_37);
+Obj _3513739_37 = makeCons(co->gc, _3513702_37, _3513738_37);
+Obj _3513740_37 = makeCons(co->gc, _3513699_37, _3513739_37);
+Obj _3513741_37 = makeCons(co->gc, _3513696_37, _3513740_37);
+Obj _3513742_37 = makeCons(co->gc, _3513693_37, _3513741_37);
+Obj _3513743_37 = makeCons(co->gc, _3513690_37, _3513742_37);
+Obj _3513744_37 = makeCons(co->gc, _3513687_37, _3513743_37);
+Obj _3513745_37 = makeCons(co->gc, _3513684_37, _3513744_37);
+Obj _3513746_37 = makeCons(co->gc, _3513681_37, _3513745_37);
+Obj _3513747_37 = primSet(co, getBinding(co, packageID, 69).name, _3513746_37);
+Obj _3513762_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj _3513766_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj _3513944_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj _3513945_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj _3513946_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513945_37);
+Obj _3513947_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513946_37);
+Obj _3513948_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513947_37);
+Obj _3513949_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513948_37);
+Obj _3513950_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513949_37);
+Obj _3513951_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513950_37);
+Obj _3513952_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513951_37);
+Obj _3513953_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513952_37);
+Obj _3513954_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513953_37);
+Obj _3513955_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513954_37);
+Obj _3513956_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513955_37);
+Obj _3513957_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513956_37);
+Obj _3513958_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513957_37);
+Obj _3513959_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513958_37);
+Obj _3513960_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513959_37);
+Obj _3513961_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513960_37);
+Obj _3513962_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513961_37);
+Obj _3513963_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513962_37);
+Obj _3513964_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513963_37);
+Obj _3513965_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513964_37);
+Obj _3513966_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513965_37);
+Obj _3513967_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513966_37);
+Obj _3513968_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513967_37);
+Obj _3513969_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513968_37);
+Obj _3513970_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513969_37);
+Obj _3513971_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513970_37);
+Obj _3513972_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513971_37);
+Obj _3513973_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513972_37);
+Obj _3513974_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513973_37);
+Obj _3513975_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513974_37);
+Obj _3513976_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513975_37);
+Obj _3513977_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513976_37);
+Obj _3513978_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513977_37);
+Obj _3513979_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513978_37);
+Obj _3513980_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513979_37);
+Obj _3513981_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513980_37);
+Obj _3513982_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513981_37);
+Obj _3513983_37 = primSet(co, getBinding(co, packageID, 53).name, _3513982_37);
+Obj _3513984_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj _3513985_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj _3513986_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj _3513987_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj _3513988_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj _3513989_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj _3513990_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj _3513991_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj _3513992_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj _3513993_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj _3513994_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj _3513995_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj _3513996_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj _3513997_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj _3513998_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj _3513999_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj _3514000_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj _3514001_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj _3514002_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj _3514003_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj _3514004_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj _3514005_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj _3514006_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj _3514007_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3514008_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj _3514009_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj _3514010_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj _3514011_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj _3514012_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj _3514013_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj _3514014_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj _3514015_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj _3514016_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj _3514017_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj _3514018_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj _3514019_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj _3514020_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj _3514021_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj _3514022_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, _3514022_37);
 return;
 }
 case 2:
 {
-Obj _3513006_37= co->res;
-Obj _3513035_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3513036_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj _3513610_37= co->res;
+Obj _3513639_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj _3513640_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3512989_37= co->res;
-Obj _3513003_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3513593_37= co->res;
+Obj _3513607_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3512967_37= co->res;
-Obj _3512987_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj _3513571_37= co->res;
+Obj _3513591_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3512936_37= co->res;
-Obj _3512937_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3512938_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3512941_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3512965_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj _3513540_37= co->res;
+Obj _3513541_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj _3513542_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj _3513545_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj _3513569_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3512828_37= co->res;
-Obj _3512880_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3512881_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3512886_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3512890_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3512891_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3512899_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3512900_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3512906_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3512917_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3512923_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj _3513432_37= co->res;
+Obj _3513484_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj _3513485_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj _3513490_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj _3513494_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj _3513495_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj _3513503_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj _3513504_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj _3513510_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3513521_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj _3513527_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3512723_37= co->res;
-Obj _3512745_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3512778_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3512791_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3512813_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3512827_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj _3513327_37= co->res;
+Obj _3513349_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj _3513382_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj _3513395_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj _3513417_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj _3513431_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3512708_37= co->res;
-Obj _3512711_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3512721_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj _3513312_37= co->res;
+Obj _3513315_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3513325_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3512694_37= co->res;
-Obj _3512706_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj _3513298_37= co->res;
+Obj _3513310_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3512680_37= co->res;
-Obj _3512692_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj _3513284_37= co->res;
+Obj _3513296_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3512666_37= co->res;
+Obj _3513270_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3512644_37= co->res;
-Obj _3512649_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3512652_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3512664_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj _3513248_37= co->res;
+Obj _3513253_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj _3513256_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj _3513268_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3512634_37= co->res;
+Obj _3513238_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3512632_37= co->res;
+Obj _3513236_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3512577_37= co->res;
-Obj _3512578_37 = primSet(co, getBinding(co, packageID, 149).name, _3512577_37);
-Obj _3512584_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3512585_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3512586_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3512587_37 = primGenSym(co);
-Obj _3512588_37 = primSet(co, getBinding(co, packageID, 145).name, _3512587_37);
-Obj _3512592_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3512601_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3512602_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3512619_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3512620_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3512631_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj _3513181_37= co->res;
+Obj _3513182_37 = primSet(co, getBinding(co, packageID, 149).name, _3513181_37);
+Obj _3513188_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj _3513189_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj _3513190_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj _3513191_37 = primGenSym(co);
+Obj _3513192_37 = primSet(co, getBinding(co, packageID, 145).name, _3513191_37);
+Obj _3513196_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj _3513205_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj _3513206_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj _3513223_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj _3513224_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj _3513235_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512507_37 = R[1];
-Obj _3512508_37 = R[2];
-Obj _3512509_37 = R[3];
-Obj _3512510_37 = R[4];
-Obj _3512531_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3512507_37, _3512508_37, _3512509_37, _3512510_37);
-R[1] = _3512510_37;
-R[2] = _3512531_37;
+Obj _3513023_37 = R[1];
+Obj _3513024_37 = R[2];
+Obj _3513025_37 = R[3];
+Obj _3513026_37 = R[4];
+Obj _3513112_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3513023_37, _3513024_37, _3513025_37, _3513026_37);
+R[1] = _3513026_37;
+R[2] = _3513112_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3512510_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3513026_37);
 return;
 }
 case 1:
 {
-Obj _3513339_37= co->res;
-Obj _3512531_37 = R[1];
-if (True == _3513339_37) {
+Obj _3513943_37= co->res;
+Obj _3513112_37 = R[1];
+if (True == _3513943_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, True);
+coraCall1(co, _3513112_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, False);
+coraCall1(co, _3513112_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513338_37= co->res;
-Obj _3512510_37 = R[1];
-Obj _3512531_37 = R[2];
-if (True == _3513338_37) {
+Obj _3513942_37= co->res;
+Obj _3513026_37 = R[1];
+Obj _3513112_37 = R[2];
+if (True == _3513942_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, True);
+coraCall1(co, _3513112_37, True);
 return;
 } else {
-R[1] = _3512531_37;
+R[1] = _3513112_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512510_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513026_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513336_37= co->res;
-Obj _3512510_37 = R[1];
-Obj _3512531_37 = R[2];
-if (True == _3513336_37) {
+Obj _3513940_37= co->res;
+Obj _3513026_37 = R[1];
+Obj _3513112_37 = R[2];
+if (True == _3513940_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, True);
+coraCall1(co, _3513112_37, True);
 return;
 } else {
-Obj _3513337_37 = primIsString(_3512510_37);
-if (True == _3513337_37) {
+Obj _3513941_37 = primIsString(_3513026_37);
+if (True == _3513941_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512531_37, True);
+coraCall1(co, _3513112_37, True);
 return;
 } else {
-R[1] = _3512510_37;
-R[2] = _3512531_37;
+R[1] = _3513026_37;
+R[2] = _3513112_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3512510_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3513026_37);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512532_37 = R[1];
-if (True == _3512532_37) {
+Obj _3513111_37 = R[1];
+if (True == _3513111_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3512512_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513324_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513324_37) {
-Obj _3513325_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513326_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513325_37);
-if (True == _3513326_37) {
-Obj _3513327_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513328_37 = PRIM_ISCONS(_3513327_37);
-if (True == _3513328_37) {
-Obj _3513329_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513330_37 = PRIM_CAR(_3513329_37);
-Obj x = _3513330_37;
-Obj _3513331_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513332_37 = PRIM_CDR(_3513331_37);
-Obj _3513333_37 = PRIM_EQ(Nil, _3513332_37);
-if (True == _3513333_37) {
-Obj _3513334_37 = makeCons(co->gc, x, Nil);
-Obj _3513335_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513334_37);
-coraReturn(co, _3513335_37);
+Obj _3513113_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513928_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3513928_37) {
+Obj _3513929_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3513930_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513929_37);
+if (True == _3513930_37) {
+Obj _3513931_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513932_37 = PRIM_ISCONS(_3513931_37);
+if (True == _3513932_37) {
+Obj _3513933_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513934_37 = PRIM_CAR(_3513933_37);
+Obj _3513138_37 = _3513934_37;
+Obj _3513935_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3513936_37 = PRIM_CDR(_3513935_37);
+Obj _3513937_37 = PRIM_EQ(Nil, _3513936_37);
+if (True == _3513937_37) {
+Obj _3513938_37 = makeCons(co->gc, _3513138_37, Nil);
+Obj _3513939_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513938_37);
+coraReturn(co, _3513939_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3513113_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3513113_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3513113_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512512_37);
+coraCall0(co, _3513113_37);
 return;
 }
 }
@@ -721,73 +721,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513163_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513163_37) {
+Obj _3513767_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3513767_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3512514_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513302_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513302_37) {
-Obj _3513303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513304_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513303_37);
-if (True == _3513304_37) {
-Obj _3513305_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513306_37 = PRIM_ISCONS(_3513305_37);
-if (True == _3513306_37) {
-Obj _3513307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513308_37 = PRIM_CAR(_3513307_37);
-Obj args = _3513308_37;
-Obj _3513309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513310_37 = PRIM_CDR(_3513309_37);
-Obj _3513311_37 = PRIM_ISCONS(_3513310_37);
-if (True == _3513311_37) {
-Obj _3513312_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513313_37 = PRIM_CDR(_3513312_37);
-Obj _3513314_37 = PRIM_CAR(_3513313_37);
-Obj body = _3513314_37;
-Obj _3513315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513316_37 = PRIM_CDR(_3513315_37);
-Obj _3513317_37 = PRIM_CDR(_3513316_37);
-Obj _3513318_37 = PRIM_EQ(Nil, _3513317_37);
-if (True == _3513318_37) {
-R[1] = body;
-R[2] = args;
+Obj _3513114_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513906_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513906_37) {
+Obj _3513907_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513908_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513907_37);
+if (True == _3513908_37) {
+Obj _3513909_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513910_37 = PRIM_ISCONS(_3513909_37);
+if (True == _3513910_37) {
+Obj _3513911_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513912_37 = PRIM_CAR(_3513911_37);
+Obj _3513136_37 = _3513912_37;
+Obj _3513913_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513914_37 = PRIM_CDR(_3513913_37);
+Obj _3513915_37 = PRIM_ISCONS(_3513914_37);
+if (True == _3513915_37) {
+Obj _3513916_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513917_37 = PRIM_CDR(_3513916_37);
+Obj _3513918_37 = PRIM_CAR(_3513917_37);
+Obj _3513137_37 = _3513918_37;
+Obj _3513919_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513920_37 = PRIM_CDR(_3513919_37);
+Obj _3513921_37 = PRIM_CDR(_3513920_37);
+Obj _3513922_37 = PRIM_EQ(Nil, _3513921_37);
+if (True == _3513922_37) {
+R[1] = _3513137_37;
+R[2] = _3513136_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), args, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513136_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512514_37);
+coraCall0(co, _3513114_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512514_37);
+coraCall0(co, _3513114_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512514_37);
+coraCall0(co, _3513114_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512514_37);
+coraCall0(co, _3513114_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512514_37);
+coraCall0(co, _3513114_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513165_37= co->res;
-if (True == _3513165_37) {
+Obj _3513769_37= co->res;
+if (True == _3513769_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj _3513164_37= co->res;
-if (True == _3513164_37) {
+Obj _3513768_37= co->res;
+if (True == _3513768_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj _3513320_37= co->res;
-Obj args = R[1];
-Obj _3513321_37 = makeCons(co->gc, _3513320_37, Nil);
-Obj _3513322_37 = makeCons(co->gc, args, _3513321_37);
-Obj _3513323_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513322_37);
-coraReturn(co, _3513323_37);
+Obj _3513924_37= co->res;
+Obj _3513136_37 = R[1];
+Obj _3513925_37 = makeCons(co->gc, _3513924_37, Nil);
+Obj _3513926_37 = makeCons(co->gc, _3513136_37, _3513925_37);
+Obj _3513927_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513926_37);
+coraReturn(co, _3513927_37);
 return;
 }
 case 4:
 {
-Obj _3513319_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
+Obj _3513923_37= co->res;
+Obj _3513137_37 = R[1];
+Obj _3513136_37 = R[2];
+R[1] = _3513136_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513319_37, closureRef(R[0], 2), closureRef(R[0], 3), body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513923_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513137_37);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512515_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513258_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513258_37) {
-Obj _3513259_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513260_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513259_37);
-if (True == _3513260_37) {
-Obj _3513261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513262_37 = PRIM_ISCONS(_3513261_37);
-if (True == _3513262_37) {
-Obj _3513263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513264_37 = PRIM_CAR(_3513263_37);
-Obj _3513265_37 = PRIM_ISCONS(_3513264_37);
-if (True == _3513265_37) {
-Obj _3513266_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513267_37 = PRIM_CAR(_3513266_37);
-Obj _3513268_37 = PRIM_CAR(_3513267_37);
-Obj _3513269_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513268_37);
-if (True == _3513269_37) {
-Obj _3513270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513271_37 = PRIM_CAR(_3513270_37);
-Obj _3513272_37 = PRIM_CDR(_3513271_37);
-Obj _3513273_37 = PRIM_ISCONS(_3513272_37);
-if (True == _3513273_37) {
-Obj _3513274_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513275_37 = PRIM_CAR(_3513274_37);
-Obj _3513276_37 = PRIM_CDR(_3513275_37);
-Obj _3513277_37 = PRIM_CAR(_3513276_37);
-Obj pkg = _3513277_37;
-Obj _3513278_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513279_37 = PRIM_CAR(_3513278_37);
-Obj _3513280_37 = PRIM_CDR(_3513279_37);
-Obj _3513281_37 = PRIM_CDR(_3513280_37);
-Obj _3513282_37 = PRIM_EQ(Nil, _3513281_37);
-if (True == _3513282_37) {
-Obj _3513283_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513284_37 = PRIM_CDR(_3513283_37);
-Obj _3513285_37 = PRIM_ISCONS(_3513284_37);
-if (True == _3513285_37) {
-Obj _3513286_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513287_37 = PRIM_CDR(_3513286_37);
-Obj _3513288_37 = PRIM_CAR(_3513287_37);
-Obj y = _3513288_37;
-Obj _3513289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513290_37 = PRIM_CDR(_3513289_37);
-Obj _3513291_37 = PRIM_CDR(_3513290_37);
-Obj _3513292_37 = PRIM_EQ(Nil, _3513291_37);
-if (True == _3513292_37) {
-Obj _3513293_37 = primIsString(pkg);
-if (True == _3513293_37) {
-Obj _3513294_37 = makeCons(co->gc, pkg, Nil);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513294_37);
-R[1] = pkg;
-R[2] = y;
+Obj _3513115_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513862_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513862_37) {
+Obj _3513863_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513864_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513863_37);
+if (True == _3513864_37) {
+Obj _3513865_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513866_37 = PRIM_ISCONS(_3513865_37);
+if (True == _3513866_37) {
+Obj _3513867_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513868_37 = PRIM_CAR(_3513867_37);
+Obj _3513869_37 = PRIM_ISCONS(_3513868_37);
+if (True == _3513869_37) {
+Obj _3513870_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513871_37 = PRIM_CAR(_3513870_37);
+Obj _3513872_37 = PRIM_CAR(_3513871_37);
+Obj _3513873_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513872_37);
+if (True == _3513873_37) {
+Obj _3513874_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513875_37 = PRIM_CAR(_3513874_37);
+Obj _3513876_37 = PRIM_CDR(_3513875_37);
+Obj _3513877_37 = PRIM_ISCONS(_3513876_37);
+if (True == _3513877_37) {
+Obj _3513878_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513879_37 = PRIM_CAR(_3513878_37);
+Obj _3513880_37 = PRIM_CDR(_3513879_37);
+Obj _3513881_37 = PRIM_CAR(_3513880_37);
+Obj _3513134_37 = _3513881_37;
+Obj _3513882_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513883_37 = PRIM_CAR(_3513882_37);
+Obj _3513884_37 = PRIM_CDR(_3513883_37);
+Obj _3513885_37 = PRIM_CDR(_3513884_37);
+Obj _3513886_37 = PRIM_EQ(Nil, _3513885_37);
+if (True == _3513886_37) {
+Obj _3513887_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513888_37 = PRIM_CDR(_3513887_37);
+Obj _3513889_37 = PRIM_ISCONS(_3513888_37);
+if (True == _3513889_37) {
+Obj _3513890_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513891_37 = PRIM_CDR(_3513890_37);
+Obj _3513892_37 = PRIM_CAR(_3513891_37);
+Obj _3513135_37 = _3513892_37;
+Obj _3513893_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513894_37 = PRIM_CDR(_3513893_37);
+Obj _3513895_37 = PRIM_CDR(_3513894_37);
+Obj _3513896_37 = PRIM_EQ(Nil, _3513895_37);
+if (True == _3513896_37) {
+Obj _3513897_37 = primIsString(_3513134_37);
+if (True == _3513897_37) {
+Obj _3513898_37 = makeCons(co->gc, _3513134_37, Nil);
+Obj _3513899_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513898_37);
+R[1] = _3513134_37;
+R[2] = _3513135_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513295_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513899_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512515_37);
+coraCall0(co, _3513115_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513298_37= co->res;
-Obj _3513296_37 = R[1];
-Obj _3513299_37 = makeCons(co->gc, _3513298_37, Nil);
-Obj _3513300_37 = makeCons(co->gc, _3513296_37, _3513299_37);
-Obj _3513301_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513300_37);
-coraReturn(co, _3513301_37);
+Obj _3513902_37= co->res;
+Obj _3513900_37 = R[1];
+Obj _3513903_37 = makeCons(co->gc, _3513902_37, Nil);
+Obj _3513904_37 = makeCons(co->gc, _3513900_37, _3513903_37);
+Obj _3513905_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513904_37);
+coraReturn(co, _3513905_37);
 return;
 }
 case 2:
 {
-Obj _3513296_37= co->res;
-Obj pkg = R[1];
-Obj y = R[2];
-Obj _3513297_37 = makeCons(co->gc, pkg, closureRef(R[0], 3));
-R[1] = _3513296_37;
+Obj _3513900_37= co->res;
+Obj _3513134_37 = R[1];
+Obj _3513135_37 = R[2];
+Obj _3513901_37 = makeCons(co->gc, _3513134_37, closureRef(R[0], 3));
+R[1] = _3513900_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513297_37, y);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513901_37, _3513135_37);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512516_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513250_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513250_37) {
-Obj _3513251_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3513251_37;
-Obj _3513252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3513252_37;
-Obj _3512533_37 = makeNative(co->gc, 2, clofun89, 1, 6, op, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), args, _3512516_37);
-Obj _3513256_37 = PRIM_EQ(op, getBinding(co, packageID, 126).name);
-if (True == _3513256_37) {
+Obj _3513116_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3513854_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513854_37) {
+Obj _3513855_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513129_37 = _3513855_37;
+Obj _3513856_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513130_37 = _3513856_37;
+Obj _3513133_37 = makeNative(co->gc, 2, clofun89, 1, 6, _3513129_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513130_37, _3513116_37);
+Obj _3513860_37 = PRIM_EQ(_3513129_37, getBinding(co, packageID, 126).name);
+if (True == _3513860_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512533_37, True);
+coraCall1(co, _3513133_37, True);
 return;
 } else {
-Obj _3513257_37 = PRIM_EQ(op, getBinding(co, packageID, 90).name);
-if (True == _3513257_37) {
+Obj _3513861_37 = PRIM_EQ(_3513129_37, getBinding(co, packageID, 90).name);
+if (True == _3513861_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512533_37, True);
+coraCall1(co, _3513133_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512533_37, False);
+coraCall1(co, _3513133_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512516_37);
+coraCall0(co, _3513116_37);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512534_37 = R[1];
-if (True == _3512534_37) {
+Obj _3513132_37 = R[1];
+if (True == _3513132_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj _3513254_37= co->res;
-Obj _3513255_37 = makeCons(co->gc, closureRef(R[0], 0), _3513254_37);
-coraReturn(co, _3513255_37);
+Obj _3513858_37= co->res;
+Obj _3513859_37 = makeCons(co->gc, closureRef(R[0], 0), _3513858_37);
+coraReturn(co, _3513859_37);
 return;
 }
 case 2:
 {
-Obj _3513253_37= co->res;
+Obj _3513857_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513253_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513857_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,100 +1040,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512517_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513217_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513217_37) {
-Obj _3513218_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513219_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513218_37);
-if (True == _3513219_37) {
-Obj _3513220_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513221_37 = PRIM_ISCONS(_3513220_37);
-if (True == _3513221_37) {
-Obj _3513222_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513223_37 = PRIM_CAR(_3513222_37);
-Obj a = _3513223_37;
-Obj _3513224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513225_37 = PRIM_CDR(_3513224_37);
-Obj _3513226_37 = PRIM_ISCONS(_3513225_37);
-if (True == _3513226_37) {
-Obj _3513227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513228_37 = PRIM_CDR(_3513227_37);
-Obj _3513229_37 = PRIM_CAR(_3513228_37);
-Obj b = _3513229_37;
-Obj _3513230_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513231_37 = PRIM_CDR(_3513230_37);
-Obj _3513232_37 = PRIM_CDR(_3513231_37);
-Obj _3513233_37 = PRIM_ISCONS(_3513232_37);
-if (True == _3513233_37) {
-Obj _3513234_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513235_37 = PRIM_CDR(_3513234_37);
-Obj _3513236_37 = PRIM_CDR(_3513235_37);
-Obj _3513237_37 = PRIM_CAR(_3513236_37);
-Obj c = _3513237_37;
-Obj _3513238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513239_37 = PRIM_CDR(_3513238_37);
-Obj _3513240_37 = PRIM_CDR(_3513239_37);
-Obj _3513241_37 = PRIM_CDR(_3513240_37);
-Obj _3513242_37 = PRIM_EQ(Nil, _3513241_37);
-if (True == _3513242_37) {
-R[1] = c;
-R[2] = a;
+Obj _3513117_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513821_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513821_37) {
+Obj _3513822_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513823_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513822_37);
+if (True == _3513823_37) {
+Obj _3513824_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513825_37 = PRIM_ISCONS(_3513824_37);
+if (True == _3513825_37) {
+Obj _3513826_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513827_37 = PRIM_CAR(_3513826_37);
+Obj _3513126_37 = _3513827_37;
+Obj _3513828_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513829_37 = PRIM_CDR(_3513828_37);
+Obj _3513830_37 = PRIM_ISCONS(_3513829_37);
+if (True == _3513830_37) {
+Obj _3513831_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513832_37 = PRIM_CDR(_3513831_37);
+Obj _3513833_37 = PRIM_CAR(_3513832_37);
+Obj _3513127_37 = _3513833_37;
+Obj _3513834_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513835_37 = PRIM_CDR(_3513834_37);
+Obj _3513836_37 = PRIM_CDR(_3513835_37);
+Obj _3513837_37 = PRIM_ISCONS(_3513836_37);
+if (True == _3513837_37) {
+Obj _3513838_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513839_37 = PRIM_CDR(_3513838_37);
+Obj _3513840_37 = PRIM_CDR(_3513839_37);
+Obj _3513841_37 = PRIM_CAR(_3513840_37);
+Obj _3513128_37 = _3513841_37;
+Obj _3513842_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513843_37 = PRIM_CDR(_3513842_37);
+Obj _3513844_37 = PRIM_CDR(_3513843_37);
+Obj _3513845_37 = PRIM_CDR(_3513844_37);
+Obj _3513846_37 = PRIM_EQ(Nil, _3513845_37);
+if (True == _3513846_37) {
+R[1] = _3513128_37;
+R[2] = _3513126_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), b);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513127_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512517_37);
+coraCall0(co, _3513117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512517_37);
+coraCall0(co, _3513117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512517_37);
+coraCall0(co, _3513117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512517_37);
+coraCall0(co, _3513117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512517_37);
+coraCall0(co, _3513117_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512517_37);
+coraCall0(co, _3513117_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513245_37= co->res;
-Obj _3513243_37 = R[1];
-Obj a = R[2];
-Obj _3513246_37 = makeCons(co->gc, _3513245_37, Nil);
-Obj _3513247_37 = makeCons(co->gc, _3513243_37, _3513246_37);
-Obj _3513248_37 = makeCons(co->gc, a, _3513247_37);
-Obj _3513249_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513248_37);
-coraReturn(co, _3513249_37);
+Obj _3513849_37= co->res;
+Obj _3513847_37 = R[1];
+Obj _3513126_37 = R[2];
+Obj _3513850_37 = makeCons(co->gc, _3513849_37, Nil);
+Obj _3513851_37 = makeCons(co->gc, _3513847_37, _3513850_37);
+Obj _3513852_37 = makeCons(co->gc, _3513126_37, _3513851_37);
+Obj _3513853_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513852_37);
+coraReturn(co, _3513853_37);
 return;
 }
 case 2:
 {
-Obj _3513243_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3513244_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3513243_37;
-R[2] = a;
+Obj _3513847_37= co->res;
+Obj _3513128_37 = R[1];
+Obj _3513126_37 = R[2];
+Obj _3513848_37 = makeCons(co->gc, _3513126_37, closureRef(R[0], 1));
+R[1] = _3513847_37;
+R[2] = _3513126_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513244_37, closureRef(R[0], 2), closureRef(R[0], 3), c);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513848_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513128_37);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512518_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513191_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513191_37) {
-Obj _3513192_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513193_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513192_37);
-if (True == _3513193_37) {
-Obj _3513194_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513195_37 = PRIM_ISCONS(_3513194_37);
-if (True == _3513195_37) {
-Obj _3513196_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513197_37 = PRIM_CAR(_3513196_37);
-Obj path = _3513197_37;
-Obj _3513198_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513199_37 = PRIM_CDR(_3513198_37);
-Obj _3513200_37 = PRIM_ISCONS(_3513199_37);
-if (True == _3513200_37) {
-Obj _3513201_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513202_37 = PRIM_CDR(_3513201_37);
-Obj _3513203_37 = PRIM_CAR(_3513202_37);
-Obj import = _3513203_37;
-Obj _3513204_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513205_37 = PRIM_CDR(_3513204_37);
-Obj _3513206_37 = PRIM_CDR(_3513205_37);
-Obj _3513207_37 = PRIM_ISCONS(_3513206_37);
-if (True == _3513207_37) {
-Obj _3513208_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513209_37 = PRIM_CDR(_3513208_37);
-Obj _3513210_37 = PRIM_CDR(_3513209_37);
-Obj _3513211_37 = PRIM_CAR(_3513210_37);
-Obj body = _3513211_37;
-Obj _3513212_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513213_37 = PRIM_CDR(_3513212_37);
-Obj _3513214_37 = PRIM_CDR(_3513213_37);
-Obj _3513215_37 = PRIM_CDR(_3513214_37);
-Obj _3513216_37 = PRIM_EQ(Nil, _3513215_37);
-if (True == _3513216_37) {
+Obj _3513118_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513795_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3513795_37) {
+Obj _3513796_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3513797_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513796_37);
+if (True == _3513797_37) {
+Obj _3513798_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513799_37 = PRIM_ISCONS(_3513798_37);
+if (True == _3513799_37) {
+Obj _3513800_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513801_37 = PRIM_CAR(_3513800_37);
+Obj _3513123_37 = _3513801_37;
+Obj _3513802_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513803_37 = PRIM_CDR(_3513802_37);
+Obj _3513804_37 = PRIM_ISCONS(_3513803_37);
+if (True == _3513804_37) {
+Obj _3513805_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513806_37 = PRIM_CDR(_3513805_37);
+Obj _3513807_37 = PRIM_CAR(_3513806_37);
+Obj _3513124_37 = _3513807_37;
+Obj _3513808_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513809_37 = PRIM_CDR(_3513808_37);
+Obj _3513810_37 = PRIM_CDR(_3513809_37);
+Obj _3513811_37 = PRIM_ISCONS(_3513810_37);
+if (True == _3513811_37) {
+Obj _3513812_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513813_37 = PRIM_CDR(_3513812_37);
+Obj _3513814_37 = PRIM_CDR(_3513813_37);
+Obj _3513815_37 = PRIM_CAR(_3513814_37);
+Obj _3513125_37 = _3513815_37;
+Obj _3513816_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513817_37 = PRIM_CDR(_3513816_37);
+Obj _3513818_37 = PRIM_CDR(_3513817_37);
+Obj _3513819_37 = PRIM_CDR(_3513818_37);
+Obj _3513820_37 = PRIM_EQ(Nil, _3513819_37);
+if (True == _3513820_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), path, import, body);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), _3513123_37, _3513124_37, _3513125_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, _3513118_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, _3513118_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, _3513118_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, _3513118_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, _3513118_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512518_37);
+coraCall0(co, _3513118_37);
 return;
 }
 }
@@ -1220,81 +1220,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512519_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513167_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513167_37) {
-Obj _3513168_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513169_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513168_37);
-if (True == _3513169_37) {
-Obj _3513170_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513171_37 = PRIM_ISCONS(_3513170_37);
-if (True == _3513171_37) {
-Obj _3513172_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513173_37 = PRIM_CAR(_3513172_37);
-Obj var = _3513173_37;
-Obj _3513174_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513175_37 = PRIM_CDR(_3513174_37);
-Obj _3513176_37 = PRIM_ISCONS(_3513175_37);
-if (True == _3513176_37) {
-Obj _3513177_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513178_37 = PRIM_CDR(_3513177_37);
-Obj _3513179_37 = PRIM_CAR(_3513178_37);
-Obj val = _3513179_37;
-Obj _3513180_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513181_37 = PRIM_CDR(_3513180_37);
-Obj _3513182_37 = PRIM_CDR(_3513181_37);
-Obj _3513183_37 = PRIM_EQ(Nil, _3513182_37);
-if (True == _3513183_37) {
-R[1] = val;
+Obj _3513119_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj _3513771_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513771_37) {
+Obj _3513772_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513773_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513772_37);
+if (True == _3513773_37) {
+Obj _3513774_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513775_37 = PRIM_ISCONS(_3513774_37);
+if (True == _3513775_37) {
+Obj _3513776_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513777_37 = PRIM_CAR(_3513776_37);
+Obj _3513120_37 = _3513777_37;
+Obj _3513778_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513779_37 = PRIM_CDR(_3513778_37);
+Obj _3513780_37 = PRIM_ISCONS(_3513779_37);
+if (True == _3513780_37) {
+Obj _3513781_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513782_37 = PRIM_CDR(_3513781_37);
+Obj _3513783_37 = PRIM_CAR(_3513782_37);
+Obj _3513121_37 = _3513783_37;
+Obj _3513784_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513785_37 = PRIM_CDR(_3513784_37);
+Obj _3513786_37 = PRIM_CDR(_3513785_37);
+Obj _3513787_37 = PRIM_EQ(Nil, _3513786_37);
+if (True == _3513787_37) {
+R[1] = _3513121_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), var, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3513120_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512519_37);
+coraCall0(co, _3513119_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513187_37= co->res;
-Obj _3513186_37 = R[1];
-Obj _3513188_37 = makeCons(co->gc, _3513187_37, Nil);
-Obj _3513189_37 = makeCons(co->gc, _3513186_37, _3513188_37);
-Obj _3513190_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513189_37);
-coraReturn(co, _3513190_37);
+Obj _3513791_37= co->res;
+Obj _3513790_37 = R[1];
+Obj _3513792_37 = makeCons(co->gc, _3513791_37, Nil);
+Obj _3513793_37 = makeCons(co->gc, _3513790_37, _3513792_37);
+Obj _3513794_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513793_37);
+coraReturn(co, _3513794_37);
 return;
 }
 case 2:
 {
-Obj _3513184_37= co->res;
-Obj val = R[1];
-Obj var1 = _3513184_37;
-Obj _3513185_37 = makeCons(co->gc, var1, Nil);
-Obj _3513186_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513185_37);
-R[1] = _3513186_37;
+Obj _3513788_37= co->res;
+Obj _3513121_37 = R[1];
+Obj _3513122_37 = _3513788_37;
+Obj _3513789_37 = makeCons(co->gc, _3513122_37, Nil);
+Obj _3513790_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513789_37);
+R[1] = _3513790_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), val);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513121_37);
 return;
 }
 }
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj _3513166_37= co->res;
+Obj _3513770_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513166_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513770_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj _3513160_37= co->res;
-Obj _3513161_37 = primNot(_3513160_37);
-coraReturn(co, _3513161_37);
+Obj _3513764_37= co->res;
+Obj _3513765_37 = primNot(_3513764_37);
+coraReturn(co, _3513765_37);
 return;
 }
 case 2:
 {
-Obj _3513159_37= co->res;
+Obj _3513763_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513159_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513763_37);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512502_37 = R[1];
-Obj _3512503_37 = R[2];
-Obj _3513144_37 = PRIM_EQ(Nil, _3512503_37);
-if (True == _3513144_37) {
+Obj _3513018_37 = R[1];
+Obj _3513019_37 = R[2];
+Obj _3513748_37 = PRIM_EQ(Nil, _3513019_37);
+if (True == _3513748_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512505_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3512503_37, _3512502_37);
-Obj _3513148_37 = PRIM_ISCONS(_3512503_37);
-if (True == _3513148_37) {
-Obj _3513149_37 = PRIM_CAR(_3512503_37);
-Obj _3513150_37 = PRIM_ISCONS(_3513149_37);
-if (True == _3513150_37) {
-Obj _3513151_37 = PRIM_CAR(_3512503_37);
-Obj _3513152_37 = PRIM_CAR(_3513151_37);
-Obj x = _3513152_37;
-Obj _3513153_37 = PRIM_CAR(_3512503_37);
-Obj _3513154_37 = PRIM_CDR(_3513153_37);
-Obj y = _3513154_37;
-Obj _3513155_37 = PRIM_CDR(_3512503_37);
-Obj _3513156_37 = PRIM_EQ(_3512502_37, x);
-if (True == _3513156_37) {
-Obj _3513157_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3513157_37);
+Obj _3513106_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3513019_37, _3513018_37);
+Obj _3513752_37 = PRIM_ISCONS(_3513019_37);
+if (True == _3513752_37) {
+Obj _3513753_37 = PRIM_CAR(_3513019_37);
+Obj _3513754_37 = PRIM_ISCONS(_3513753_37);
+if (True == _3513754_37) {
+Obj _3513755_37 = PRIM_CAR(_3513019_37);
+Obj _3513756_37 = PRIM_CAR(_3513755_37);
+Obj _3513108_37 = _3513756_37;
+Obj _3513757_37 = PRIM_CAR(_3513019_37);
+Obj _3513758_37 = PRIM_CDR(_3513757_37);
+Obj _3513109_37 = _3513758_37;
+Obj _3513759_37 = PRIM_CDR(_3513019_37);
+Obj _3513760_37 = PRIM_EQ(_3513018_37, _3513108_37);
+if (True == _3513760_37) {
+Obj _3513761_37 = makeCons(co->gc, _3513108_37, _3513109_37);
+coraReturn(co, _3513761_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512505_37);
+coraCall0(co, _3513106_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512505_37);
+coraCall0(co, _3513106_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512505_37);
+coraCall0(co, _3513106_37);
 return;
 }
 }
@@ -1397,13 +1397,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513145_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513145_37) {
-Obj _3513146_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513147_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3513147_37;
+Obj _3513749_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513749_37) {
+Obj _3513750_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513751_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513107_37 = _3513751_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), _3513107_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1418,27 +1418,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512497_37 = R[1];
-Obj _3512498_37 = R[2];
-Obj _3512499_37 = R[3];
-Obj _3513063_37 = PRIM_EQ(Nil, _3512499_37);
-if (True == _3513063_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3512497_37, _3512498_37);
-return;
-} else {
-Obj _3513064_37 = PRIM_ISCONS(_3512499_37);
-if (True == _3513064_37) {
-Obj _3513065_37 = PRIM_CAR(_3512499_37);
-Obj import = _3513065_37;
-Obj _3513066_37 = PRIM_CDR(_3512499_37);
-Obj more = _3513066_37;
-R[1] = import;
-R[2] = _3512497_37;
-R[3] = _3512498_37;
-R[4] = more;
+Obj _3513013_37 = R[1];
+Obj _3513014_37 = R[2];
+Obj _3513015_37 = R[3];
+Obj _3513667_37 = PRIM_EQ(Nil, _3513015_37);
+if (True == _3513667_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3513013_37, _3513014_37);
+return;
+} else {
+Obj _3513668_37 = PRIM_ISCONS(_3513015_37);
+if (True == _3513668_37) {
+Obj _3513669_37 = PRIM_CAR(_3513015_37);
+Obj _3513103_37 = _3513669_37;
+Obj _3513670_37 = PRIM_CDR(_3513015_37);
+Obj _3513104_37 = _3513670_37;
+R[1] = _3513103_37;
+R[2] = _3513013_37;
+R[3] = _3513014_37;
+R[4] = _3513104_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), _3513103_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj _3513073_37= co->res;
+Obj _3513677_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513073_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513677_37);
 return;
 }
 case 2:
 {
-Obj _3513072_37= co->res;
-Obj import = R[1];
+Obj _3513676_37= co->res;
+Obj _3513103_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), import, _3513072_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), _3513103_37, _3513676_37);
 return;
 }
 case 3:
 {
-Obj _3513071_37= co->res;
-Obj import = R[1];
-R[1] = import;
+Obj _3513675_37= co->res;
+Obj _3513103_37 = R[1];
+R[1] = _3513103_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513071_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513675_37);
 return;
 }
 case 4:
 {
-Obj _3513070_37= co->res;
-Obj import = R[1];
-Obj _3512497_37 = R[2];
-Obj _3512498_37 = R[3];
-Obj more = R[4];
-if (True == _3513070_37) {
-R[1] = import;
+Obj _3513674_37= co->res;
+Obj _3513103_37 = R[1];
+Obj _3513013_37 = R[2];
+Obj _3513014_37 = R[3];
+Obj _3513104_37 = R[4];
+if (True == _3513674_37) {
+R[1] = _3513103_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3512497_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3513013_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3512497_37, _3512498_37, more);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3513013_37, _3513014_37, _3513104_37);
 return;
 }
 }
 case 5:
 {
-Obj _3513069_37= co->res;
-Obj import = R[1];
-Obj _3512497_37 = R[2];
-Obj _3512498_37 = R[3];
-Obj more = R[4];
-Obj export = _3513069_37;
-R[1] = import;
-R[2] = _3512497_37;
-R[3] = _3512498_37;
-R[4] = more;
+Obj _3513673_37= co->res;
+Obj _3513103_37 = R[1];
+Obj _3513013_37 = R[2];
+Obj _3513014_37 = R[3];
+Obj _3513104_37 = R[4];
+Obj _3513105_37 = _3513673_37;
+R[1] = _3513103_37;
+R[2] = _3513013_37;
+R[3] = _3513014_37;
+R[4] = _3513104_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3512497_37, export);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3513013_37, _3513105_37);
 return;
 }
 case 6:
 {
-Obj _3513068_37= co->res;
-Obj import = R[1];
-Obj _3512497_37 = R[2];
-Obj _3512498_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512497_37;
-R[3] = _3512498_37;
-R[4] = more;
+Obj _3513672_37= co->res;
+Obj _3513103_37 = R[1];
+Obj _3513013_37 = R[2];
+Obj _3513014_37 = R[3];
+Obj _3513104_37 = R[4];
+R[1] = _3513103_37;
+R[2] = _3513013_37;
+R[3] = _3513014_37;
+R[4] = _3513104_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513068_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513672_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3513067_37= co->res;
-Obj import = R[1];
-Obj _3512497_37 = R[2];
-Obj _3512498_37 = R[3];
-Obj more = R[4];
-R[1] = import;
-R[2] = _3512497_37;
-R[3] = _3512498_37;
-R[4] = more;
+Obj _3513671_37= co->res;
+Obj _3513103_37 = R[1];
+Obj _3513013_37 = R[2];
+Obj _3513014_37 = R[3];
+Obj _3513104_37 = R[4];
+R[1] = _3513103_37;
+R[2] = _3513013_37;
+R[3] = _3513014_37;
+R[4] = _3513104_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513067_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513671_37);
 return;
 }
 }
@@ -1544,8 +1544,8 @@ case 0:
 {
 Obj var = R[1];
 Obj ns = R[2];
-Obj _3513057_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3513057_37) {
+Obj _3513661_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
+if (True == _3513661_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1558,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj _3513061_37= co->res;
+Obj _3513665_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513061_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513665_37);
 return;
 }
 case 2:
 {
-Obj _3513060_37= co->res;
+Obj _3513664_37= co->res;
 Obj ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513060_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513664_37);
 return;
 }
 case 3:
 {
-Obj _3513059_37= co->res;
+Obj _3513663_37= co->res;
 Obj ns = R[1];
 R[1] = ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513059_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513663_37);
 return;
 }
 case 4:
 {
-Obj _3513058_37= co->res;
+Obj _3513662_37= co->res;
 Obj var = R[1];
 Obj ns = R[2];
-if (True == _3513058_37) {
+if (True == _3513662_37) {
 coraReturn(co, var);
 return;
 } else {
@@ -1610,27 +1610,27 @@ return;
 }
 case 1:
 {
-Obj _3513039_37= co->res;
-Obj path = R[1];
+Obj _3513643_37= co->res;
+Obj _3513102_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3513039_37, makeNative(co->gc, 4, clofun78, 3, 1, path));
+coraCall1(co, _3513643_37, makeNative(co->gc, 4, clofun78, 3, 1, _3513102_37));
 return;
 }
 case 2:
 {
-Obj _3513038_37= co->res;
-Obj path = R[1];
-R[1] = path;
+Obj _3513642_37= co->res;
+Obj _3513102_37 = R[1];
+R[1] = _3513102_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513038_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513642_37);
 return;
 }
 case 3:
 {
-Obj _3513037_37= co->res;
+Obj _3513641_37= co->res;
 Obj sexp = R[1];
-Obj path = _3513037_37;
-R[1] = path;
+Obj _3513102_37 = _3513641_37;
+R[1] = _3513102_37;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
 return;
@@ -1645,41 +1645,41 @@ case 0:
 Obj import = R[1];
 Obj export = R[2];
 Obj body = R[3];
-Obj _3513040_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
+Obj _3513644_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
 R[1] = export;
 R[2] = body;
-R[3] = _3513040_37;
+R[3] = _3513644_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
 return;
 }
 case 1:
 {
-Obj _3513050_37= co->res;
-Obj _3513040_37 = R[1];
-Obj _3513051_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513050_37);
-Obj _3513052_37 = makeCons(co->gc, _3513051_37, Nil);
-Obj _3513053_37 = makeCons(co->gc, _3513040_37, _3513052_37);
-Obj _3513054_37 = makeCons(co->gc, closureRef(R[0], 0), _3513053_37);
-Obj _3513055_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513054_37);
-coraReturn(co, _3513055_37);
+Obj _3513654_37= co->res;
+Obj _3513644_37 = R[1];
+Obj _3513655_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513654_37);
+Obj _3513656_37 = makeCons(co->gc, _3513655_37, Nil);
+Obj _3513657_37 = makeCons(co->gc, _3513644_37, _3513656_37);
+Obj _3513658_37 = makeCons(co->gc, closureRef(R[0], 0), _3513657_37);
+Obj _3513659_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513658_37);
+coraReturn(co, _3513659_37);
 return;
 }
 case 2:
 {
-Obj _3513043_37= co->res;
+Obj _3513647_37= co->res;
 Obj export = R[1];
 Obj body = R[2];
-Obj _3513040_37 = R[3];
-Obj _3513044_37 = makeCons(co->gc, export, Nil);
-Obj _3513045_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513044_37);
-Obj _3513046_37 = makeCons(co->gc, _3513045_37, Nil);
-Obj _3513047_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513046_37);
-Obj _3513048_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513047_37);
-Obj _3513049_37 = makeCons(co->gc, _3513048_37, body);
-R[1] = _3513040_37;
+Obj _3513644_37 = R[3];
+Obj _3513648_37 = makeCons(co->gc, export, Nil);
+Obj _3513649_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513648_37);
+Obj _3513650_37 = makeCons(co->gc, _3513649_37, Nil);
+Obj _3513651_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513650_37);
+Obj _3513652_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513651_37);
+Obj _3513653_37 = makeCons(co->gc, _3513652_37, body);
+R[1] = _3513644_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513043_37, _3513049_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513647_37, _3513653_37);
 return;
 }
 }
@@ -1690,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj imp = R[1];
-Obj _3513041_37 = makeCons(co->gc, imp, Nil);
-Obj _3513042_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513041_37);
-coraReturn(co, _3513042_37);
+Obj _3513645_37 = makeCons(co->gc, imp, Nil);
+Obj _3513646_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513645_37);
+coraReturn(co, _3513646_37);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512490_37 = R[1];
-Obj _3512491_37 = R[2];
-Obj _3512492_37 = R[3];
-Obj _3512493_37 = R[4];
-Obj _3512494_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3512492_37, _3512490_37, _3512491_37, _3512493_37);
-Obj _3513017_37 = PRIM_ISCONS(_3512490_37);
-if (True == _3513017_37) {
-Obj _3513018_37 = PRIM_CAR(_3512490_37);
-Obj _3513019_37 = PRIM_ISCONS(_3513018_37);
-if (True == _3513019_37) {
-Obj _3513020_37 = PRIM_CAR(_3512490_37);
-Obj _3513021_37 = PRIM_CAR(_3513020_37);
-Obj _3513022_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513021_37);
-if (True == _3513022_37) {
-Obj _3513023_37 = PRIM_CAR(_3512490_37);
-Obj _3513024_37 = PRIM_CDR(_3513023_37);
-Obj _3513025_37 = PRIM_ISCONS(_3513024_37);
-if (True == _3513025_37) {
-Obj _3513026_37 = PRIM_CAR(_3512490_37);
-Obj _3513027_37 = PRIM_CDR(_3513026_37);
-Obj _3513028_37 = PRIM_CAR(_3513027_37);
-Obj lib = _3513028_37;
-Obj _3513029_37 = PRIM_CAR(_3512490_37);
-Obj _3513030_37 = PRIM_CDR(_3513029_37);
-Obj _3513031_37 = PRIM_CDR(_3513030_37);
-Obj _3513032_37 = PRIM_EQ(Nil, _3513031_37);
-if (True == _3513032_37) {
-Obj _3513033_37 = PRIM_CDR(_3512490_37);
-Obj rest = _3513033_37;
-Obj _3513034_37 = makeCons(co->gc, lib, _3512491_37);
+Obj _3513006_37 = R[1];
+Obj _3513007_37 = R[2];
+Obj _3513008_37 = R[3];
+Obj _3513009_37 = R[4];
+Obj _3513096_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3513008_37, _3513006_37, _3513007_37, _3513009_37);
+Obj _3513621_37 = PRIM_ISCONS(_3513006_37);
+if (True == _3513621_37) {
+Obj _3513622_37 = PRIM_CAR(_3513006_37);
+Obj _3513623_37 = PRIM_ISCONS(_3513622_37);
+if (True == _3513623_37) {
+Obj _3513624_37 = PRIM_CAR(_3513006_37);
+Obj _3513625_37 = PRIM_CAR(_3513624_37);
+Obj _3513626_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513625_37);
+if (True == _3513626_37) {
+Obj _3513627_37 = PRIM_CAR(_3513006_37);
+Obj _3513628_37 = PRIM_CDR(_3513627_37);
+Obj _3513629_37 = PRIM_ISCONS(_3513628_37);
+if (True == _3513629_37) {
+Obj _3513630_37 = PRIM_CAR(_3513006_37);
+Obj _3513631_37 = PRIM_CDR(_3513630_37);
+Obj _3513632_37 = PRIM_CAR(_3513631_37);
+Obj _3513100_37 = _3513632_37;
+Obj _3513633_37 = PRIM_CAR(_3513006_37);
+Obj _3513634_37 = PRIM_CDR(_3513633_37);
+Obj _3513635_37 = PRIM_CDR(_3513634_37);
+Obj _3513636_37 = PRIM_EQ(Nil, _3513635_37);
+if (True == _3513636_37) {
+Obj _3513637_37 = PRIM_CDR(_3513006_37);
+Obj _3513101_37 = _3513637_37;
+Obj _3513638_37 = makeCons(co->gc, _3513100_37, _3513007_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, _3513034_37, _3512492_37, _3512493_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), _3513101_37, _3513638_37, _3513008_37, _3513009_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3513096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3513096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3513096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3513096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512494_37);
+coraCall0(co, _3513096_37);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512495_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513008_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513008_37) {
-Obj _3513009_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513010_37 = PRIM_ISCONS(_3513009_37);
-if (True == _3513010_37) {
-Obj _3513011_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513012_37 = PRIM_CAR(_3513011_37);
-Obj _3513013_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513012_37);
-if (True == _3513013_37) {
-Obj _3513014_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513015_37 = PRIM_CDR(_3513014_37);
-Obj more = _3513015_37;
-Obj _3513016_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj rest = _3513016_37;
+Obj _3513097_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3513612_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513612_37) {
+Obj _3513613_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513614_37 = PRIM_ISCONS(_3513613_37);
+if (True == _3513614_37) {
+Obj _3513615_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513616_37 = PRIM_CAR(_3513615_37);
+Obj _3513617_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513616_37);
+if (True == _3513617_37) {
+Obj _3513618_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513619_37 = PRIM_CDR(_3513618_37);
+Obj _3513098_37 = _3513619_37;
+Obj _3513620_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3513099_37 = _3513620_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), rest, closureRef(R[0], 2), more, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), _3513099_37, closureRef(R[0], 2), _3513098_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512495_37);
+coraCall0(co, _3513097_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512495_37);
+coraCall0(co, _3513097_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512495_37);
+coraCall0(co, _3513097_37);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj _3513007_37= co->res;
+Obj _3513611_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3513007_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), _3513611_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1848,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj _3513005_37= co->res;
-Obj _3513004_37 = R[1];
+Obj _3513609_37= co->res;
+Obj _3513608_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513004_37, _3513005_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513608_37, _3513609_37);
 return;
 }
 case 2:
 {
-Obj _3513004_37= co->res;
+Obj _3513608_37= co->res;
 Obj exp = R[1];
-R[1] = _3513004_37;
+R[1] = _3513608_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
@@ -1880,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj _3512993_37= co->res;
-Obj _3512992_37 = R[1];
+Obj _3513597_37= co->res;
+Obj _3513596_37 = R[1];
 Obj fn = R[2];
-Obj _3512994_37 = makeCons(co->gc, _3512993_37, Nil);
-Obj _3512995_37 = makeCons(co->gc, _3512992_37, _3512994_37);
-Obj _3512996_37 = makeCons(co->gc, fn, _3512995_37);
-coraReturn(co, _3512996_37);
+Obj _3513598_37 = makeCons(co->gc, _3513597_37, Nil);
+Obj _3513599_37 = makeCons(co->gc, _3513596_37, _3513598_37);
+Obj _3513600_37 = makeCons(co->gc, fn, _3513599_37);
+coraReturn(co, _3513600_37);
 return;
 }
 case 2:
 {
-Obj _3512999_37= co->res;
-Obj _3512997_37 = R[1];
+Obj _3513603_37= co->res;
+Obj _3513601_37 = R[1];
 Obj fn = R[2];
-Obj _3513000_37 = makeCons(co->gc, _3512999_37, Nil);
-Obj _3513001_37 = makeCons(co->gc, _3512997_37, _3513000_37);
-Obj _3513002_37 = makeCons(co->gc, fn, _3513001_37);
-coraReturn(co, _3513002_37);
+Obj _3513604_37 = makeCons(co->gc, _3513603_37, Nil);
+Obj _3513605_37 = makeCons(co->gc, _3513601_37, _3513604_37);
+Obj _3513606_37 = makeCons(co->gc, fn, _3513605_37);
+coraReturn(co, _3513606_37);
 return;
 }
 case 3:
 {
-Obj _3512991_37= co->res;
+Obj _3513595_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
-if (True == _3512991_37) {
-Obj _3512992_37 = PRIM_CAR(arglist);
-R[1] = _3512992_37;
+if (True == _3513595_37) {
+Obj _3513596_37 = PRIM_CAR(arglist);
+R[1] = _3513596_37;
 R[2] = fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
 return;
 } else {
-Obj _3512997_37 = PRIM_CAR(arglist);
-Obj _3512998_37 = PRIM_CDR(arglist);
-R[1] = _3512997_37;
+Obj _3513601_37 = PRIM_CAR(arglist);
+Obj _3513602_37 = PRIM_CDR(arglist);
+R[1] = _3513601_37;
 R[2] = fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3512998_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3513602_37);
 return;
 }
 }
 case 4:
 {
-Obj _3512990_37= co->res;
+Obj _3513594_37= co->res;
 Obj arglist = R[1];
 Obj fn = R[2];
 R[1] = arglist;
 R[2] = fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512990_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513594_37);
 return;
 }
 }
@@ -1947,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj _3512988_37= co->res;
+Obj _3513592_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3512988_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3513592_37);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512485_37 = R[1];
-Obj _3512968_37 = primIsSymbol(_3512485_37);
-if (True == _3512968_37) {
-Obj _3512969_37 = makeCons(co->gc, _3512485_37, Nil);
-Obj _3512970_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512969_37);
-coraReturn(co, _3512970_37);
-return;
-} else {
-Obj _3512487_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3512485_37);
-Obj _3512977_37 = PRIM_ISCONS(_3512485_37);
-if (True == _3512977_37) {
-Obj _3512978_37 = PRIM_CAR(_3512485_37);
-Obj _3512979_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3512978_37);
-if (True == _3512979_37) {
-Obj _3512980_37 = PRIM_CDR(_3512485_37);
-Obj _3512981_37 = PRIM_ISCONS(_3512980_37);
-if (True == _3512981_37) {
-Obj _3512982_37 = PRIM_CDR(_3512485_37);
-Obj _3512983_37 = PRIM_CAR(_3512982_37);
-Obj x = _3512983_37;
-Obj _3512984_37 = PRIM_CDR(_3512485_37);
-Obj _3512985_37 = PRIM_CDR(_3512984_37);
-Obj _3512986_37 = PRIM_EQ(Nil, _3512985_37);
-if (True == _3512986_37) {
-coraReturn(co, x);
+Obj _3513001_37 = R[1];
+Obj _3513572_37 = primIsSymbol(_3513001_37);
+if (True == _3513572_37) {
+Obj _3513573_37 = makeCons(co->gc, _3513001_37, Nil);
+Obj _3513574_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513573_37);
+coraReturn(co, _3513574_37);
+return;
+} else {
+Obj _3513092_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3513001_37);
+Obj _3513581_37 = PRIM_ISCONS(_3513001_37);
+if (True == _3513581_37) {
+Obj _3513582_37 = PRIM_CAR(_3513001_37);
+Obj _3513583_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3513582_37);
+if (True == _3513583_37) {
+Obj _3513584_37 = PRIM_CDR(_3513001_37);
+Obj _3513585_37 = PRIM_ISCONS(_3513584_37);
+if (True == _3513585_37) {
+Obj _3513586_37 = PRIM_CDR(_3513001_37);
+Obj _3513587_37 = PRIM_CAR(_3513586_37);
+Obj _3513095_37 = _3513587_37;
+Obj _3513588_37 = PRIM_CDR(_3513001_37);
+Obj _3513589_37 = PRIM_CDR(_3513588_37);
+Obj _3513590_37 = PRIM_EQ(Nil, _3513589_37);
+if (True == _3513590_37) {
+coraReturn(co, _3513095_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, _3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, _3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, _3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512487_37);
+coraCall0(co, _3513092_37);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512971_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512971_37) {
-Obj _3512972_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512972_37;
-Obj _3512973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3512973_37;
-Obj _3512974_37 = makeCons(co->gc, x, more);
+Obj _3513575_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513575_37) {
+Obj _3513576_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513093_37 = _3513576_37;
+Obj _3513577_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513094_37 = _3513577_37;
+Obj _3513578_37 = makeCons(co->gc, _3513093_37, _3513094_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3512974_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3513578_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj _3512975_37= co->res;
-Obj _3512976_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512975_37);
-coraReturn(co, _3512976_37);
+Obj _3513579_37= co->res;
+Obj _3513580_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513579_37);
+coraReturn(co, _3513580_37);
 return;
 }
 }
@@ -2044,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512966_37 = PRIM_CDR(exp);
+Obj _3513570_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3512966_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3513570_37);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512481_37 = R[1];
-Obj _3512482_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512481_37);
-Obj _3512961_37 = PRIM_ISCONS(_3512481_37);
-if (True == _3512961_37) {
-Obj _3512962_37 = PRIM_CAR(_3512481_37);
-Obj x = _3512962_37;
-Obj _3512963_37 = PRIM_CDR(_3512481_37);
-Obj _3512964_37 = PRIM_EQ(Nil, _3512963_37);
-if (True == _3512964_37) {
-coraReturn(co, x);
+Obj _3512997_37 = R[1];
+Obj _3513085_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512997_37);
+Obj _3513565_37 = PRIM_ISCONS(_3512997_37);
+if (True == _3513565_37) {
+Obj _3513566_37 = PRIM_CAR(_3512997_37);
+Obj _3513091_37 = _3513566_37;
+Obj _3513567_37 = PRIM_CDR(_3512997_37);
+Obj _3513568_37 = PRIM_EQ(Nil, _3513567_37);
+if (True == _3513568_37) {
+coraReturn(co, _3513091_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, _3513085_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512482_37);
+coraCall0(co, _3513085_37);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512483_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3512949_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512949_37) {
-Obj _3512950_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512950_37;
-Obj _3512951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512952_37 = PRIM_ISCONS(_3512951_37);
-if (True == _3512952_37) {
-Obj _3512953_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512954_37 = PRIM_CAR(_3512953_37);
-Obj y = _3512954_37;
-Obj _3512955_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512956_37 = PRIM_CDR(_3512955_37);
-Obj _3512957_37 = PRIM_EQ(Nil, _3512956_37);
-if (True == _3512957_37) {
-Obj _3512958_37 = makeCons(co->gc, y, Nil);
-Obj _3512959_37 = makeCons(co->gc, x, _3512958_37);
-Obj _3512960_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512959_37);
-coraReturn(co, _3512960_37);
+Obj _3513086_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj _3513553_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513553_37) {
+Obj _3513554_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513089_37 = _3513554_37;
+Obj _3513555_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513556_37 = PRIM_ISCONS(_3513555_37);
+if (True == _3513556_37) {
+Obj _3513557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513558_37 = PRIM_CAR(_3513557_37);
+Obj _3513090_37 = _3513558_37;
+Obj _3513559_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513560_37 = PRIM_CDR(_3513559_37);
+Obj _3513561_37 = PRIM_EQ(Nil, _3513560_37);
+if (True == _3513561_37) {
+Obj _3513562_37 = makeCons(co->gc, _3513090_37, Nil);
+Obj _3513563_37 = makeCons(co->gc, _3513089_37, _3513562_37);
+Obj _3513564_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513563_37);
+coraReturn(co, _3513564_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512483_37);
+coraCall0(co, _3513086_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512483_37);
+coraCall0(co, _3513086_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512483_37);
+coraCall0(co, _3513086_37);
 return;
 }
 }
@@ -2128,15 +2128,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512942_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512942_37) {
-Obj _3512943_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512943_37;
-Obj _3512944_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512944_37;
-R[1] = x;
+Obj _3513546_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513546_37) {
+Obj _3513547_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513087_37 = _3513547_37;
+Obj _3513548_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513088_37 = _3513548_37;
+R[1] = _3513087_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), y);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3513088_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj _3512945_37= co->res;
-Obj x = R[1];
-Obj _3512946_37 = makeCons(co->gc, _3512945_37, Nil);
-Obj _3512947_37 = makeCons(co->gc, x, _3512946_37);
-Obj _3512948_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3512947_37);
-coraReturn(co, _3512948_37);
+Obj _3513549_37= co->res;
+Obj _3513087_37 = R[1];
+Obj _3513550_37 = makeCons(co->gc, _3513549_37, Nil);
+Obj _3513551_37 = makeCons(co->gc, _3513087_37, _3513550_37);
+Obj _3513552_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513551_37);
+coraReturn(co, _3513552_37);
 return;
 }
 }
@@ -2168,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj _3512940_37= co->res;
+Obj _3513544_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3512940_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3513544_37);
 return;
 }
 case 2:
 {
-Obj _3512939_37= co->res;
+Obj _3513543_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3512939_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3513543_37);
 return;
 }
 }
@@ -2218,61 +2218,61 @@ return;
 }
 case 1:
 {
-Obj _3512928_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3512929_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, args);
-Obj _3512930_37 = makeCons(co->gc, _3512929_37, body);
-Obj _3512931_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3512930_37);
-Obj _3512932_37 = makeCons(co->gc, _3512931_37, Nil);
-Obj _3512933_37 = makeCons(co->gc, args, _3512932_37);
-Obj _3512934_37 = makeCons(co->gc, _3512928_37, _3512933_37);
-Obj _3512935_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3512934_37);
-coraReturn(co, _3512935_37);
+Obj _3513532_37= co->res;
+Obj _3513082_37 = R[1];
+Obj _3513084_37 = R[2];
+Obj _3513533_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513084_37);
+Obj _3513534_37 = makeCons(co->gc, _3513533_37, _3513082_37);
+Obj _3513535_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3513534_37);
+Obj _3513536_37 = makeCons(co->gc, _3513535_37, Nil);
+Obj _3513537_37 = makeCons(co->gc, _3513084_37, _3513536_37);
+Obj _3513538_37 = makeCons(co->gc, _3513532_37, _3513537_37);
+Obj _3513539_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3513538_37);
+coraReturn(co, _3513539_37);
 return;
 }
 case 2:
 {
-Obj _3512927_37= co->res;
+Obj _3513531_37= co->res;
 Obj exp = R[1];
-Obj body = R[2];
-Obj args = _3512927_37;
-R[1] = body;
-R[2] = args;
+Obj _3513082_37 = R[2];
+Obj _3513084_37 = _3513531_37;
+R[1] = _3513082_37;
+R[2] = _3513084_37;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
 }
 case 3:
 {
-Obj _3512926_37= co->res;
+Obj _3513530_37= co->res;
 Obj exp = R[1];
-Obj body = R[2];
-Obj nargs = _3512926_37;
+Obj _3513082_37 = R[2];
+Obj _3513083_37 = _3513530_37;
 R[1] = exp;
-R[2] = body;
+R[2] = _3513082_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), nargs);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3513083_37);
 return;
 }
 case 4:
 {
-Obj _3512925_37= co->res;
+Obj _3513529_37= co->res;
 Obj exp = R[1];
-Obj body = _3512925_37;
+Obj _3513082_37 = _3513529_37;
 R[1] = exp;
-R[2] = body;
+R[2] = _3513082_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), body);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), _3513082_37);
 return;
 }
 case 5:
 {
-Obj _3512924_37= co->res;
+Obj _3513528_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3512924_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3513528_37);
 return;
 }
 }
@@ -2283,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj n = R[1];
-Obj _3512918_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3512918_37) {
+Obj _3513522_37 = PRIM_EQ(n, MAKE_NUMBER(0));
+if (True == _3513522_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3512919_37 = primGenSym(co);
-Obj _3512920_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3512919_37;
+Obj _3513523_37 = primGenSym(co);
+Obj _3513524_37 = PRIM_SUB(n, MAKE_NUMBER(1));
+R[1] = _3513523_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3512920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3513524_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512921_37= co->res;
-Obj _3512919_37 = R[1];
-Obj _3512922_37 = makeCons(co->gc, _3512919_37, _3512921_37);
-coraReturn(co, _3512922_37);
+Obj _3513525_37= co->res;
+Obj _3513523_37 = R[1];
+Obj _3513526_37 = makeCons(co->gc, _3513523_37, _3513525_37);
+coraReturn(co, _3513526_37);
 return;
 }
 }
@@ -2318,45 +2318,45 @@ return;
 }
 case 1:
 {
-Obj _3512915_37= co->res;
-Obj n = R[1];
-Obj _3512916_37 = primNot(_3512915_37);
-if (True == _3512916_37) {
+Obj _3513519_37= co->res;
+Obj _3513081_37 = R[1];
+Obj _3513520_37 = primNot(_3513519_37);
+if (True == _3513520_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, n);
+coraReturn(co, _3513081_37);
 return;
 }
 }
 case 2:
 {
-Obj _3512914_37= co->res;
-Obj n = R[1];
-R[1] = n;
+Obj _3513518_37= co->res;
+Obj _3513081_37 = R[1];
+R[1] = _3513081_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512914_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513518_37);
 return;
 }
 case 3:
 {
-Obj _3512909_37= co->res;
-Obj counts = _3512909_37;
-Obj _3512910_37 = PRIM_CAR(counts);
-Obj n = _3512910_37;
-Obj _3512913_37 = PRIM_CDR(counts);
-R[1] = n;
+Obj _3513513_37= co->res;
+Obj _3513080_37 = _3513513_37;
+Obj _3513514_37 = PRIM_CAR(_3513080_37);
+Obj _3513081_37 = _3513514_37;
+Obj _3513517_37 = PRIM_CDR(_3513080_37);
+R[1] = _3513081_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, n), _3512913_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, _3513081_37), _3513517_37);
 return;
 }
 case 4:
 {
-Obj _3512907_37= co->res;
-Obj pats = _3512907_37;
+Obj _3513511_37= co->res;
+Obj _3513079_37 = _3513511_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), pats);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), _3513079_37);
 return;
 }
 }
@@ -2367,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512911_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3512912_37 = primNot(_3512911_37);
-coraReturn(co, _3512912_37);
+Obj _3513515_37 = PRIM_EQ(closureRef(R[0], 0), x);
+Obj _3513516_37 = primNot(_3513515_37);
+coraReturn(co, _3513516_37);
 return;
 }
 }
@@ -2380,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512908_37 = PRIM_CDR(x);
+Obj _3513512_37 = PRIM_CDR(x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3512908_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3513512_37);
 return;
 }
 }
@@ -2394,25 +2394,25 @@ case 0:
 {
 Obj l1 = R[1];
 Obj l2 = R[2];
-Obj _3512901_37 = PRIM_EQ(l1, Nil);
-if (True == _3512901_37) {
+Obj _3513505_37 = PRIM_EQ(l1, Nil);
+if (True == _3513505_37) {
 coraReturn(co, l2);
 return;
 } else {
-Obj _3512902_37 = PRIM_CAR(l1);
-Obj _3512903_37 = PRIM_CDR(l1);
-R[1] = _3512902_37;
+Obj _3513506_37 = PRIM_CAR(l1);
+Obj _3513507_37 = PRIM_CDR(l1);
+R[1] = _3513506_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3512903_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513507_37, l2);
 return;
 }
 }
 case 1:
 {
-Obj _3512904_37= co->res;
-Obj _3512902_37 = R[1];
-Obj _3512905_37 = makeCons(co->gc, _3512902_37, _3512904_37);
-coraReturn(co, _3512905_37);
+Obj _3513508_37= co->res;
+Obj _3513506_37 = R[1];
+Obj _3513509_37 = makeCons(co->gc, _3513506_37, _3513508_37);
+coraReturn(co, _3513509_37);
 return;
 }
 }
@@ -2438,14 +2438,14 @@ case 0:
 Obj res = R[1];
 Obj fn = R[2];
 Obj l = R[3];
-Obj _3512892_37 = PRIM_ISCONS(l);
-if (True == _3512892_37) {
-Obj _3512893_37 = PRIM_CAR(l);
+Obj _3513496_37 = PRIM_ISCONS(l);
+if (True == _3513496_37) {
+Obj _3513497_37 = PRIM_CAR(l);
 R[1] = l;
 R[2] = res;
 R[3] = fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3512893_37);
+coraCall1(co, fn, _3513497_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2455,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj _3512894_37= co->res;
+Obj _3513498_37= co->res;
 Obj l = R[1];
 Obj res = R[2];
 Obj fn = R[3];
-if (True == _3512894_37) {
-Obj _3512895_37 = PRIM_CAR(l);
-Obj _3512896_37 = makeCons(co->gc, _3512895_37, res);
-Obj _3512897_37 = PRIM_CDR(l);
+if (True == _3513498_37) {
+Obj _3513499_37 = PRIM_CAR(l);
+Obj _3513500_37 = makeCons(co->gc, _3513499_37, res);
+Obj _3513501_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3512896_37, fn, _3512897_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3513500_37, fn, _3513501_37);
 return;
 } else {
-Obj _3512898_37 = PRIM_CDR(l);
+Obj _3513502_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3512898_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3513502_37);
 return;
 }
 }
@@ -2494,15 +2494,15 @@ case 0:
 {
 Obj i = R[1];
 Obj l = R[2];
-Obj _3512887_37 = PRIM_EQ(l, Nil);
-if (True == _3512887_37) {
+Obj _3513491_37 = PRIM_EQ(l, Nil);
+if (True == _3513491_37) {
 coraReturn(co, i);
 return;
 } else {
-Obj _3512888_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3512889_37 = PRIM_CDR(l);
+Obj _3513492_37 = PRIM_ADD(i, MAKE_NUMBER(1));
+Obj _3513493_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3512888_37, _3512889_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3513492_37, _3513493_37);
 return;
 }
 }
@@ -2523,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj _3512885_37= co->res;
-Obj _3512884_37 = R[1];
+Obj _3513489_37= co->res;
+Obj _3513488_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3512884_37, _3512885_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3513488_37, _3513489_37);
 return;
 }
 case 2:
 {
-Obj _3512882_37= co->res;
+Obj _3513486_37= co->res;
 Obj res = R[1];
 Obj rules = R[2];
-if (True == _3512882_37) {
+if (True == _3513486_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
 return;
 } else {
-Obj _3512883_37 = PRIM_CAR(rules);
-Obj _3512884_37 = makeCons(co->gc, _3512883_37, res);
-R[1] = _3512884_37;
+Obj _3513487_37 = PRIM_CAR(rules);
+Obj _3513488_37 = makeCons(co->gc, _3513487_37, res);
+R[1] = _3513488_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
 return;
@@ -2569,103 +2569,103 @@ case 0:
 Obj input = R[1];
 Obj current = R[2];
 Obj result = R[3];
-Obj _3512829_37 = PRIM_EQ(Nil, input);
-if (True == _3512829_37) {
+Obj _3513433_37 = PRIM_EQ(Nil, input);
+if (True == _3513433_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
 return;
 } else {
-Obj _3512478_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3512847_37 = PRIM_ISCONS(input);
-if (True == _3512847_37) {
-Obj _3512848_37 = PRIM_CAR(input);
-Obj _3512849_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512848_37);
-if (True == _3512849_37) {
-Obj _3512850_37 = PRIM_CDR(input);
-Obj _3512851_37 = PRIM_ISCONS(_3512850_37);
-if (True == _3512851_37) {
-Obj _3512852_37 = PRIM_CDR(input);
-Obj _3512853_37 = PRIM_CAR(_3512852_37);
-Obj act = _3512853_37;
-Obj _3512854_37 = PRIM_CDR(input);
-Obj _3512855_37 = PRIM_CDR(_3512854_37);
-Obj _3512856_37 = PRIM_ISCONS(_3512855_37);
-if (True == _3512856_37) {
-Obj _3512857_37 = PRIM_CDR(input);
-Obj _3512858_37 = PRIM_CDR(_3512857_37);
-Obj _3512859_37 = PRIM_CAR(_3512858_37);
-Obj _3512860_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3512859_37);
-if (True == _3512860_37) {
-Obj _3512861_37 = PRIM_CDR(input);
-Obj _3512862_37 = PRIM_CDR(_3512861_37);
-Obj _3512863_37 = PRIM_CDR(_3512862_37);
-Obj _3512864_37 = PRIM_ISCONS(_3512863_37);
-if (True == _3512864_37) {
-Obj _3512865_37 = PRIM_CDR(input);
-Obj _3512866_37 = PRIM_CDR(_3512865_37);
-Obj _3512867_37 = PRIM_CDR(_3512866_37);
-Obj _3512868_37 = PRIM_CAR(_3512867_37);
-Obj pred = _3512868_37;
-Obj _3512869_37 = PRIM_CDR(input);
-Obj _3512870_37 = PRIM_CDR(_3512869_37);
-Obj _3512871_37 = PRIM_CDR(_3512870_37);
-Obj _3512872_37 = PRIM_CDR(_3512871_37);
-Obj remain = _3512872_37;
-R[1] = act;
-R[2] = pred;
+Obj _3513068_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
+Obj _3513451_37 = PRIM_ISCONS(input);
+if (True == _3513451_37) {
+Obj _3513452_37 = PRIM_CAR(input);
+Obj _3513453_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3513452_37);
+if (True == _3513453_37) {
+Obj _3513454_37 = PRIM_CDR(input);
+Obj _3513455_37 = PRIM_ISCONS(_3513454_37);
+if (True == _3513455_37) {
+Obj _3513456_37 = PRIM_CDR(input);
+Obj _3513457_37 = PRIM_CAR(_3513456_37);
+Obj _3513075_37 = _3513457_37;
+Obj _3513458_37 = PRIM_CDR(input);
+Obj _3513459_37 = PRIM_CDR(_3513458_37);
+Obj _3513460_37 = PRIM_ISCONS(_3513459_37);
+if (True == _3513460_37) {
+Obj _3513461_37 = PRIM_CDR(input);
+Obj _3513462_37 = PRIM_CDR(_3513461_37);
+Obj _3513463_37 = PRIM_CAR(_3513462_37);
+Obj _3513464_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3513463_37);
+if (True == _3513464_37) {
+Obj _3513465_37 = PRIM_CDR(input);
+Obj _3513466_37 = PRIM_CDR(_3513465_37);
+Obj _3513467_37 = PRIM_CDR(_3513466_37);
+Obj _3513468_37 = PRIM_ISCONS(_3513467_37);
+if (True == _3513468_37) {
+Obj _3513469_37 = PRIM_CDR(input);
+Obj _3513470_37 = PRIM_CDR(_3513469_37);
+Obj _3513471_37 = PRIM_CDR(_3513470_37);
+Obj _3513472_37 = PRIM_CAR(_3513471_37);
+Obj _3513076_37 = _3513472_37;
+Obj _3513473_37 = PRIM_CDR(input);
+Obj _3513474_37 = PRIM_CDR(_3513473_37);
+Obj _3513475_37 = PRIM_CDR(_3513474_37);
+Obj _3513476_37 = PRIM_CDR(_3513475_37);
+Obj _3513077_37 = _3513476_37;
+R[1] = _3513075_37;
+R[2] = _3513076_37;
 R[3] = result;
-R[4] = remain;
+R[4] = _3513077_37;
 saveCont(co, clofun48, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512478_37);
+coraCall0(co, _3513068_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512478_37);
+coraCall0(co, _3513068_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512478_37);
+coraCall0(co, _3513068_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512478_37);
+coraCall0(co, _3513068_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512478_37);
+coraCall0(co, _3513068_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512478_37);
+coraCall0(co, _3513068_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512873_37= co->res;
-Obj act = R[1];
-Obj pred = R[2];
+Obj _3513477_37= co->res;
+Obj _3513075_37 = R[1];
+Obj _3513076_37 = R[2];
 Obj result = R[3];
-Obj remain = R[4];
-Obj _3512874_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512873_37);
-Obj pat = _3512874_37;
-Obj _3512875_37 = makeCons(co->gc, act, Nil);
-Obj _3512876_37 = makeCons(co->gc, pred, _3512875_37);
-Obj _3512877_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3512876_37);
-Obj _3512878_37 = makeCons(co->gc, pat, result);
-Obj _3512879_37 = makeCons(co->gc, _3512877_37, _3512878_37);
+Obj _3513077_37 = R[4];
+Obj _3513478_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513477_37);
+Obj _3513078_37 = _3513478_37;
+Obj _3513479_37 = makeCons(co->gc, _3513075_37, Nil);
+Obj _3513480_37 = makeCons(co->gc, _3513076_37, _3513479_37);
+Obj _3513481_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3513480_37);
+Obj _3513482_37 = makeCons(co->gc, _3513078_37, result);
+Obj _3513483_37 = makeCons(co->gc, _3513481_37, _3513482_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512879_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), _3513077_37, Nil, _3513483_37);
 return;
 }
 }
@@ -2675,53 +2675,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512479_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3512834_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512834_37) {
-Obj _3512835_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3512836_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3512835_37);
-if (True == _3512836_37) {
-Obj _3512837_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512838_37 = PRIM_ISCONS(_3512837_37);
-if (True == _3512838_37) {
-Obj _3512839_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512840_37 = PRIM_CAR(_3512839_37);
-Obj act = _3512840_37;
-Obj _3512841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3512842_37 = PRIM_CDR(_3512841_37);
-Obj remain = _3512842_37;
-R[1] = act;
-R[2] = remain;
+Obj _3513069_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3513438_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513438_37) {
+Obj _3513439_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513440_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3513439_37);
+if (True == _3513440_37) {
+Obj _3513441_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513442_37 = PRIM_ISCONS(_3513441_37);
+if (True == _3513442_37) {
+Obj _3513443_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513444_37 = PRIM_CAR(_3513443_37);
+Obj _3513072_37 = _3513444_37;
+Obj _3513445_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513446_37 = PRIM_CDR(_3513445_37);
+Obj _3513073_37 = _3513446_37;
+R[1] = _3513072_37;
+R[2] = _3513073_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512479_37);
+coraCall0(co, _3513069_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512479_37);
+coraCall0(co, _3513069_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3512479_37);
+coraCall0(co, _3513069_37);
 return;
 }
 }
 case 1:
 {
-Obj _3512843_37= co->res;
-Obj act = R[1];
-Obj remain = R[2];
-Obj _3512844_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3512843_37);
-Obj pat = _3512844_37;
-Obj _3512845_37 = makeCons(co->gc, pat, closureRef(R[0], 2));
-Obj _3512846_37 = makeCons(co->gc, act, _3512845_37);
+Obj _3513447_37= co->res;
+Obj _3513072_37 = R[1];
+Obj _3513073_37 = R[2];
+Obj _3513448_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513447_37);
+Obj _3513074_37 = _3513448_37;
+Obj _3513449_37 = makeCons(co->gc, _3513074_37, closureRef(R[0], 2));
+Obj _3513450_37 = makeCons(co->gc, _3513072_37, _3513449_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), remain, Nil, _3512846_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), _3513073_37, Nil, _3513450_37);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512830_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3512830_37) {
-Obj _3512831_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3512831_37;
-Obj _3512832_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3512832_37;
-Obj _3512833_37 = makeCons(co->gc, x, closureRef(R[0], 1));
+Obj _3513434_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3513434_37) {
+Obj _3513435_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3513070_37 = _3513435_37;
+Obj _3513436_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513071_37 = _3513436_37;
+Obj _3513437_37 = makeCons(co->gc, _3513070_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), y, _3512833_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), _3513071_37, _3513437_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2774,47 +2774,47 @@ return;
 }
 case 1:
 {
-Obj _3512816_37= co->res;
-Obj value = R[1];
-Obj rules = _3512816_37;
-Obj _3512529_37 = makeNative(co->gc, 2, clofun43, 1, 2, value, rules);
-Obj _3512823_37 = PRIM_ISCONS(value);
-if (True == _3512823_37) {
-Obj _3512824_37 = PRIM_CAR(value);
-Obj _3512825_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3512824_37);
-Obj _3512826_37 = primNot(_3512825_37);
-if (True == _3512826_37) {
+Obj _3513420_37= co->res;
+Obj _3513062_37 = R[1];
+Obj _3513063_37 = _3513420_37;
+Obj _3513066_37 = makeNative(co->gc, 2, clofun43, 1, 2, _3513062_37, _3513063_37);
+Obj _3513427_37 = PRIM_ISCONS(_3513062_37);
+if (True == _3513427_37) {
+Obj _3513428_37 = PRIM_CAR(_3513062_37);
+Obj _3513429_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3513428_37);
+Obj _3513430_37 = primNot(_3513429_37);
+if (True == _3513430_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512529_37, True);
+coraCall1(co, _3513066_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512529_37, False);
+coraCall1(co, _3513066_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512529_37, False);
+coraCall1(co, _3513066_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512815_37= co->res;
+Obj _3513419_37= co->res;
 Obj exp = R[1];
-Obj value = _3512815_37;
-R[1] = value;
+Obj _3513062_37 = _3513419_37;
+R[1] = _3513062_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 3:
 {
-Obj _3512814_37= co->res;
+Obj _3513418_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3512814_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3513418_37);
 return;
 }
 }
@@ -2824,13 +2824,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512530_37 = R[1];
-if (True == _3512530_37) {
-Obj _3512817_37 = primGenSym(co);
-Obj val = _3512817_37;
-R[1] = val;
+Obj _3513065_37 = R[1];
+if (True == _3513065_37) {
+Obj _3513421_37 = primGenSym(co);
+Obj _3513067_37 = _3513421_37;
+R[1] = _3513067_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), val, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), _3513067_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj _3512818_37= co->res;
-Obj val = R[1];
-Obj _3512819_37 = makeCons(co->gc, _3512818_37, Nil);
-Obj _3512820_37 = makeCons(co->gc, closureRef(R[0], 0), _3512819_37);
-Obj _3512821_37 = makeCons(co->gc, val, _3512820_37);
-Obj _3512822_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512821_37);
-coraReturn(co, _3512822_37);
+Obj _3513422_37= co->res;
+Obj _3513067_37 = R[1];
+Obj _3513423_37 = makeCons(co->gc, _3513422_37, Nil);
+Obj _3513424_37 = makeCons(co->gc, closureRef(R[0], 0), _3513423_37);
+Obj _3513425_37 = makeCons(co->gc, _3513067_37, _3513424_37);
+Obj _3513426_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513425_37);
+coraReturn(co, _3513426_37);
 return;
 }
 }
@@ -2866,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj _3512812_37= co->res;
-Obj _3512527_37 = R[1];
-if (True == _3512812_37) {
+Obj _3513416_37= co->res;
+Obj _3513056_37 = R[1];
+if (True == _3513416_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512527_37, True);
+coraCall1(co, _3513056_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512527_37, False);
+coraCall1(co, _3513056_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512810_37= co->res;
+Obj _3513414_37= co->res;
 Obj rules = R[1];
-Obj _3512527_37 = R[2];
-if (True == _3512810_37) {
-Obj _3512811_37 = PRIM_CDR(rules);
-R[1] = _3512527_37;
+Obj _3513056_37 = R[2];
+if (True == _3513414_37) {
+Obj _3513415_37 = PRIM_CDR(rules);
+R[1] = _3513056_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3512811_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3513415_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512527_37, False);
+coraCall1(co, _3513056_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3512792_37= co->res;
+Obj _3513396_37= co->res;
 Obj value = R[1];
 Obj rules = R[2];
-if (True == _3512792_37) {
-Obj _3512793_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3512794_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512793_37);
-coraReturn(co, _3512794_37);
+if (True == _3513396_37) {
+Obj _3513397_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj _3513398_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513397_37);
+coraReturn(co, _3513398_37);
 return;
 } else {
-Obj _3512527_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
+Obj _3513056_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
 R[1] = rules;
-R[2] = _3512527_37;
+R[2] = _3513056_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
 return;
@@ -2921,16 +2921,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512528_37 = R[1];
-if (True == _3512528_37) {
-Obj _3512795_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj pat = _3512795_37;
-Obj _3512796_37 = primGenSym(co);
-Obj cc = _3512796_37;
-R[1] = pat;
-R[2] = cc;
+Obj _3513055_37 = R[1];
+if (True == _3513055_37) {
+Obj _3513399_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513057_37 = _3513399_37;
+Obj _3513400_37 = primGenSym(co);
+Obj _3513058_37 = _3513400_37;
+R[1] = _3513057_37;
+R[2] = _3513058_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), cc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), _3513058_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2940,53 +2940,53 @@ return;
 }
 case 1:
 {
-Obj _3512802_37= co->res;
-Obj curr = R[1];
-Obj cc = R[2];
-Obj rest = _3512802_37;
-Obj _3512803_37 = makeCons(co->gc, rest, Nil);
-Obj _3512804_37 = makeCons(co->gc, Nil, _3512803_37);
-Obj _3512805_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512804_37);
-Obj _3512806_37 = makeCons(co->gc, curr, Nil);
-Obj _3512807_37 = makeCons(co->gc, _3512805_37, _3512806_37);
-Obj _3512808_37 = makeCons(co->gc, cc, _3512807_37);
-Obj _3512809_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512808_37);
-coraReturn(co, _3512809_37);
+Obj _3513406_37= co->res;
+Obj _3513060_37 = R[1];
+Obj _3513058_37 = R[2];
+Obj _3513061_37 = _3513406_37;
+Obj _3513407_37 = makeCons(co->gc, _3513061_37, Nil);
+Obj _3513408_37 = makeCons(co->gc, Nil, _3513407_37);
+Obj _3513409_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513408_37);
+Obj _3513410_37 = makeCons(co->gc, _3513060_37, Nil);
+Obj _3513411_37 = makeCons(co->gc, _3513409_37, _3513410_37);
+Obj _3513412_37 = makeCons(co->gc, _3513058_37, _3513411_37);
+Obj _3513413_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513412_37);
+coraReturn(co, _3513413_37);
 return;
 }
 case 2:
 {
-Obj _3512799_37= co->res;
-Obj cc = R[1];
-Obj curr = _3512799_37;
-Obj _3512800_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3512801_37 = PRIM_CDR(_3512800_37);
-R[1] = curr;
-R[2] = cc;
+Obj _3513403_37= co->res;
+Obj _3513058_37 = R[1];
+Obj _3513060_37 = _3513403_37;
+Obj _3513404_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3513405_37 = PRIM_CDR(_3513404_37);
+R[1] = _3513060_37;
+R[2] = _3513058_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3512801_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3513405_37);
 return;
 }
 case 3:
 {
-Obj _3512798_37= co->res;
-Obj action = R[1];
-Obj cc = R[2];
-R[1] = cc;
+Obj _3513402_37= co->res;
+Obj _3513059_37 = R[1];
+Obj _3513058_37 = R[2];
+R[1] = _3513058_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3512798_37, closureRef(R[0], 0), action, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3513402_37, closureRef(R[0], 0), _3513059_37, _3513058_37);
 return;
 }
 case 4:
 {
-Obj _3512797_37= co->res;
-Obj pat = R[1];
-Obj cc = R[2];
-Obj action = _3512797_37;
-R[1] = action;
-R[2] = cc;
+Obj _3513401_37= co->res;
+Obj _3513057_37 = R[1];
+Obj _3513058_37 = R[2];
+Obj _3513059_37 = _3513401_37;
+R[1] = _3513059_37;
+R[2] = _3513058_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3513057_37);
 return;
 }
 }
@@ -2998,36 +2998,36 @@ case 0:
 {
 Obj rules = R[1];
 Obj cc = R[2];
-Obj _3512779_37 = PRIM_CDR(rules);
-Obj _3512780_37 = PRIM_CAR(_3512779_37);
-Obj action = _3512780_37;
-Obj _3512525_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, action);
-R[1] = action;
-R[2] = _3512525_37;
+Obj _3513383_37 = PRIM_CDR(rules);
+Obj _3513384_37 = PRIM_CAR(_3513383_37);
+Obj _3513050_37 = _3513384_37;
+Obj _3513053_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, _3513050_37);
+R[1] = _3513050_37;
+R[2] = _3513053_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), action);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3513050_37);
 return;
 }
 case 1:
 {
-Obj _3512788_37= co->res;
-Obj action = R[1];
-Obj _3512525_37 = R[2];
-if (True == _3512788_37) {
-Obj _3512789_37 = PRIM_CAR(action);
-Obj _3512790_37 = PRIM_EQ(_3512789_37, getBinding(co, packageID, 110).name);
-if (True == _3512790_37) {
+Obj _3513392_37= co->res;
+Obj _3513050_37 = R[1];
+Obj _3513053_37 = R[2];
+if (True == _3513392_37) {
+Obj _3513393_37 = PRIM_CAR(_3513050_37);
+Obj _3513394_37 = PRIM_EQ(_3513393_37, getBinding(co, packageID, 110).name);
+if (True == _3513394_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512525_37, True);
+coraCall1(co, _3513053_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512525_37, False);
+coraCall1(co, _3513053_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512525_37, False);
+coraCall1(co, _3513053_37, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512526_37 = R[1];
-if (True == _3512526_37) {
+Obj _3513052_37 = R[1];
+if (True == _3513052_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj _3512782_37= co->res;
-Obj _3512781_37 = R[1];
-Obj _3512783_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3512784_37 = makeCons(co->gc, _3512783_37, Nil);
-Obj _3512785_37 = makeCons(co->gc, _3512782_37, _3512784_37);
-Obj _3512786_37 = makeCons(co->gc, _3512781_37, _3512785_37);
-Obj _3512787_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512786_37);
-coraReturn(co, _3512787_37);
+Obj _3513386_37= co->res;
+Obj _3513385_37 = R[1];
+Obj _3513387_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3513388_37 = makeCons(co->gc, _3513387_37, Nil);
+Obj _3513389_37 = makeCons(co->gc, _3513386_37, _3513388_37);
+Obj _3513390_37 = makeCons(co->gc, _3513385_37, _3513389_37);
+Obj _3513391_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513390_37);
+coraReturn(co, _3513391_37);
 return;
 }
 case 2:
 {
-Obj _3512781_37= co->res;
-R[1] = _3512781_37;
+Obj _3513385_37= co->res;
+R[1] = _3513385_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3089,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj _3512777_37= co->res;
+Obj _3513381_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3512777_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3513381_37);
 return;
 }
 case 2:
 {
-Obj _3512764_37= co->res;
+Obj _3513368_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512764_37) {
-Obj _3512765_37 = PRIM_CAR(pat);
-Obj _3512766_37 = PRIM_EQ(_3512765_37, getBinding(co, packageID, 139).name);
-if (True == _3512766_37) {
-Obj _3512767_37 = makeCons(co->gc, expr, Nil);
-Obj _3512768_37 = makeCons(co->gc, pat, _3512767_37);
-Obj _3512769_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512768_37);
-Obj _3512770_37 = makeCons(co->gc, cc, Nil);
-Obj _3512771_37 = makeCons(co->gc, _3512770_37, Nil);
-Obj _3512772_37 = makeCons(co->gc, body, _3512771_37);
-Obj _3512773_37 = makeCons(co->gc, _3512769_37, _3512772_37);
-Obj _3512774_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512773_37);
-coraReturn(co, _3512774_37);
-return;
-} else {
-Obj _3512775_37 = PRIM_CAR(pat);
-Obj _3512776_37 = PRIM_EQ(_3512775_37, getBinding(co, packageID, 152).name);
-if (True == _3512776_37) {
+if (True == _3513368_37) {
+Obj _3513369_37 = PRIM_CAR(pat);
+Obj _3513370_37 = PRIM_EQ(_3513369_37, getBinding(co, packageID, 139).name);
+if (True == _3513370_37) {
+Obj _3513371_37 = makeCons(co->gc, expr, Nil);
+Obj _3513372_37 = makeCons(co->gc, pat, _3513371_37);
+Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513372_37);
+Obj _3513374_37 = makeCons(co->gc, cc, Nil);
+Obj _3513375_37 = makeCons(co->gc, _3513374_37, Nil);
+Obj _3513376_37 = makeCons(co->gc, body, _3513375_37);
+Obj _3513377_37 = makeCons(co->gc, _3513373_37, _3513376_37);
+Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513377_37);
+coraReturn(co, _3513378_37);
+return;
+} else {
+Obj _3513379_37 = PRIM_CAR(pat);
+Obj _3513380_37 = PRIM_EQ(_3513379_37, getBinding(co, packageID, 152).name);
+if (True == _3513380_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
 return;
@@ -3136,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj _3512749_37= co->res;
+Obj _3513353_37= co->res;
 Obj expr = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj pat = R[4];
-if (True == _3512749_37) {
-Obj _3512750_37 = PRIM_EQ(pat, expr);
-if (True == _3512750_37) {
+if (True == _3513353_37) {
+Obj _3513354_37 = PRIM_EQ(pat, expr);
+if (True == _3513354_37) {
 coraReturn(co, body);
 return;
 } else {
-Obj _3512751_37 = makeCons(co->gc, expr, Nil);
-Obj _3512752_37 = makeCons(co->gc, pat, _3512751_37);
-Obj _3512753_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3512752_37);
-Obj _3512754_37 = makeCons(co->gc, cc, Nil);
-Obj _3512755_37 = makeCons(co->gc, _3512754_37, Nil);
-Obj _3512756_37 = makeCons(co->gc, body, _3512755_37);
-Obj _3512757_37 = makeCons(co->gc, _3512753_37, _3512756_37);
-Obj _3512758_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512757_37);
-coraReturn(co, _3512758_37);
+Obj _3513355_37 = makeCons(co->gc, expr, Nil);
+Obj _3513356_37 = makeCons(co->gc, pat, _3513355_37);
+Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513356_37);
+Obj _3513358_37 = makeCons(co->gc, cc, Nil);
+Obj _3513359_37 = makeCons(co->gc, _3513358_37, Nil);
+Obj _3513360_37 = makeCons(co->gc, body, _3513359_37);
+Obj _3513361_37 = makeCons(co->gc, _3513357_37, _3513360_37);
+Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513361_37);
+coraReturn(co, _3513362_37);
 return;
 }
 } else {
-Obj _3512759_37 = primIsSymbol(pat);
-if (True == _3512759_37) {
-Obj _3512760_37 = makeCons(co->gc, body, Nil);
-Obj _3512761_37 = makeCons(co->gc, expr, _3512760_37);
-Obj _3512762_37 = makeCons(co->gc, pat, _3512761_37);
-Obj _3512763_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512762_37);
-coraReturn(co, _3512763_37);
+Obj _3513363_37 = primIsSymbol(pat);
+if (True == _3513363_37) {
+Obj _3513364_37 = makeCons(co->gc, body, Nil);
+Obj _3513365_37 = makeCons(co->gc, expr, _3513364_37);
+Obj _3513366_37 = makeCons(co->gc, pat, _3513365_37);
+Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513366_37);
+coraReturn(co, _3513367_37);
 return;
 } else {
 R[1] = expr;
@@ -3193,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj _3512746_37= co->res;
+Obj _3513350_37= co->res;
 Obj x = R[1];
-if (True == _3512746_37) {
-Obj _3512747_37 = primIsSymbol(x);
-Obj _3512748_37 = primNot(_3512747_37);
-if (True == _3512748_37) {
+if (True == _3513350_37) {
+Obj _3513351_37 = primIsSymbol(x);
+Obj _3513352_37 = primNot(_3513351_37);
+if (True == _3513352_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3231,41 +3231,41 @@ return;
 }
 case 1:
 {
-Obj _3512725_37= co->res;
-Obj x = R[1];
+Obj _3513329_37= co->res;
+Obj _3513043_37 = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj y = _3512725_37;
-Obj _3512523_37 = makeNative(co->gc, 3, clofun35, 1, 5, x, y, expr, body, cc);
-Obj _3512742_37 = PRIM_ISCONS(expr);
-if (True == _3512742_37) {
-Obj _3512743_37 = PRIM_CAR(expr);
-Obj _3512744_37 = PRIM_EQ(_3512743_37, getBinding(co, packageID, 152).name);
-if (True == _3512744_37) {
+Obj _3513044_37 = _3513329_37;
+Obj _3513047_37 = makeNative(co->gc, 3, clofun35, 1, 5, _3513043_37, _3513044_37, expr, body, cc);
+Obj _3513346_37 = PRIM_ISCONS(expr);
+if (True == _3513346_37) {
+Obj _3513347_37 = PRIM_CAR(expr);
+Obj _3513348_37 = PRIM_EQ(_3513347_37, getBinding(co, packageID, 152).name);
+if (True == _3513348_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512523_37, True);
+coraCall1(co, _3513047_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512523_37, False);
+coraCall1(co, _3513047_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512523_37, False);
+coraCall1(co, _3513047_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3512724_37= co->res;
+Obj _3513328_37= co->res;
 Obj pat = R[1];
 Obj body = R[2];
 Obj cc = R[3];
 Obj expr = R[4];
-Obj x = _3512724_37;
-R[1] = x;
+Obj _3513043_37 = _3513328_37;
+R[1] = _3513043_37;
 R[2] = body;
 R[3] = cc;
 R[4] = expr;
@@ -3280,72 +3280,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512524_37 = R[1];
-if (True == _3512524_37) {
+Obj _3513046_37 = R[1];
+if (True == _3513046_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3512729_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512730_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3512729_37);
-Obj _3512731_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512732_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3512731_37);
-Obj _3512733_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3512734_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3512733_37);
-R[1] = _3512732_37;
-R[2] = _3512730_37;
+Obj _3513333_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3513334_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513333_37);
+Obj _3513335_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3513336_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513335_37);
+Obj _3513337_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj _3513338_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513337_37);
+R[1] = _3513336_37;
+R[2] = _3513334_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3512734_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3513338_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3512728_37= co->res;
-Obj e1 = R[1];
+Obj _3513332_37= co->res;
+Obj _3513048_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), e1, _3512728_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3513048_37, _3513332_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3512727_37= co->res;
-Obj e1 = R[1];
-Obj e2 = _3512727_37;
-R[1] = e1;
+Obj _3513331_37= co->res;
+Obj _3513048_37 = R[1];
+Obj _3513049_37 = _3513331_37;
+R[1] = _3513048_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), e2, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3513049_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3512726_37= co->res;
-Obj e1 = _3512726_37;
-R[1] = e1;
+Obj _3513330_37= co->res;
+Obj _3513048_37 = _3513330_37;
+R[1] = _3513048_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3512736_37= co->res;
-Obj _3512730_37 = R[1];
-Obj _3512737_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3512738_37 = makeCons(co->gc, _3512737_37, Nil);
-Obj _3512739_37 = makeCons(co->gc, _3512736_37, _3512738_37);
-Obj _3512740_37 = makeCons(co->gc, _3512730_37, _3512739_37);
-Obj _3512741_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512740_37);
-coraReturn(co, _3512741_37);
+Obj _3513340_37= co->res;
+Obj _3513334_37 = R[1];
+Obj _3513341_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj _3513342_37 = makeCons(co->gc, _3513341_37, Nil);
+Obj _3513343_37 = makeCons(co->gc, _3513340_37, _3513342_37);
+Obj _3513344_37 = makeCons(co->gc, _3513334_37, _3513343_37);
+Obj _3513345_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513344_37);
+coraReturn(co, _3513345_37);
 return;
 }
 case 5:
 {
-Obj _3512735_37= co->res;
-Obj _3512732_37 = R[1];
-Obj _3512730_37 = R[2];
-R[1] = _3512730_37;
+Obj _3513339_37= co->res;
+Obj _3513336_37 = R[1];
+Obj _3513334_37 = R[2];
+R[1] = _3513334_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3512732_37, _3512735_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3513336_37, _3513339_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512722_37 = PRIM_CDR(exp);
+Obj _3513326_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512722_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3513326_37);
 return;
 }
 }
@@ -3369,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj pat = R[1];
-Obj _3512712_37 = PRIM_CDR(pat);
+Obj _3513316_37 = PRIM_CDR(pat);
 R[1] = pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512712_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513316_37);
 return;
 }
 case 1:
 {
-Obj _3512717_37= co->res;
-Obj _3512715_37 = R[1];
-Obj _3512718_37 = makeCons(co->gc, _3512717_37, Nil);
-Obj _3512719_37 = makeCons(co->gc, _3512715_37, _3512718_37);
-Obj _3512720_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512719_37);
-coraReturn(co, _3512720_37);
+Obj _3513321_37= co->res;
+Obj _3513319_37 = R[1];
+Obj _3513322_37 = makeCons(co->gc, _3513321_37, Nil);
+Obj _3513323_37 = makeCons(co->gc, _3513319_37, _3513322_37);
+Obj _3513324_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513323_37);
+coraReturn(co, _3513324_37);
 return;
 }
 case 2:
 {
-Obj _3512713_37= co->res;
+Obj _3513317_37= co->res;
 Obj pat = R[1];
-if (True == _3512713_37) {
-Obj _3512714_37 = PRIM_CAR(pat);
-coraReturn(co, _3512714_37);
+if (True == _3513317_37) {
+Obj _3513318_37 = PRIM_CAR(pat);
+coraReturn(co, _3513318_37);
 return;
 } else {
-Obj _3512715_37 = PRIM_CAR(pat);
-Obj _3512716_37 = PRIM_CDR(pat);
-R[1] = _3512715_37;
+Obj _3513319_37 = PRIM_CAR(pat);
+Obj _3513320_37 = PRIM_CDR(pat);
+R[1] = _3513319_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3512716_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3513320_37);
 return;
 }
 }
@@ -3410,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512709_37 = PRIM_EQ(x, True);
-if (True == _3512709_37) {
+Obj _3513313_37 = PRIM_EQ(x, True);
+if (True == _3513313_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512710_37 = PRIM_EQ(x, False);
-if (True == _3512710_37) {
+Obj _3513314_37 = PRIM_EQ(x, False);
+if (True == _3513314_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512707_37 = PRIM_CDR(exp);
+Obj _3513311_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512707_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3513311_37);
 return;
 }
 }
@@ -3446,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512695_37 = PRIM_EQ(Nil, l);
-if (True == _3512695_37) {
+Obj _3513299_37 = PRIM_EQ(Nil, l);
+if (True == _3513299_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512696_37 = PRIM_CAR(l);
-Obj _3512697_37 = PRIM_EQ(_3512696_37, False);
-if (True == _3512697_37) {
+Obj _3513300_37 = PRIM_CAR(l);
+Obj _3513301_37 = PRIM_EQ(_3513300_37, False);
+if (True == _3513301_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512698_37 = PRIM_CDR(l);
+Obj _3513302_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3512698_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3513302_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512699_37= co->res;
+Obj _3513303_37= co->res;
 Obj l = R[1];
-Obj more = _3512699_37;
-Obj _3512700_37 = PRIM_EQ(more, False);
-if (True == _3512700_37) {
+Obj _3513042_37 = _3513303_37;
+Obj _3513304_37 = PRIM_EQ(_3513042_37, False);
+if (True == _3513304_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512701_37 = PRIM_CAR(l);
-Obj _3512702_37 = makeCons(co->gc, False, Nil);
-Obj _3512703_37 = makeCons(co->gc, more, _3512702_37);
-Obj _3512704_37 = makeCons(co->gc, _3512701_37, _3512703_37);
-Obj _3512705_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512704_37);
-coraReturn(co, _3512705_37);
+Obj _3513305_37 = PRIM_CAR(l);
+Obj _3513306_37 = makeCons(co->gc, False, Nil);
+Obj _3513307_37 = makeCons(co->gc, _3513042_37, _3513306_37);
+Obj _3513308_37 = makeCons(co->gc, _3513305_37, _3513307_37);
+Obj _3513309_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513308_37);
+coraReturn(co, _3513309_37);
 return;
 }
 }
@@ -3492,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512693_37 = PRIM_CDR(exp);
+Obj _3513297_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512693_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3513297_37);
 return;
 }
 }
@@ -3505,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj l = R[1];
-Obj _3512681_37 = PRIM_EQ(l, Nil);
-if (True == _3512681_37) {
+Obj _3513285_37 = PRIM_EQ(l, Nil);
+if (True == _3513285_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3512682_37 = PRIM_CAR(l);
-Obj _3512683_37 = PRIM_EQ(_3512682_37, True);
-if (True == _3512683_37) {
+Obj _3513286_37 = PRIM_CAR(l);
+Obj _3513287_37 = PRIM_EQ(_3513286_37, True);
+if (True == _3513287_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512684_37 = PRIM_CDR(l);
+Obj _3513288_37 = PRIM_CDR(l);
 R[1] = l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3512684_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3513288_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3512685_37= co->res;
+Obj _3513289_37= co->res;
 Obj l = R[1];
-Obj more = _3512685_37;
-Obj _3512686_37 = PRIM_EQ(more, True);
-if (True == _3512686_37) {
+Obj _3513041_37 = _3513289_37;
+Obj _3513290_37 = PRIM_EQ(_3513041_37, True);
+if (True == _3513290_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512687_37 = PRIM_CAR(l);
-Obj _3512688_37 = makeCons(co->gc, more, Nil);
-Obj _3512689_37 = makeCons(co->gc, True, _3512688_37);
-Obj _3512690_37 = makeCons(co->gc, _3512687_37, _3512689_37);
-Obj _3512691_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512690_37);
-coraReturn(co, _3512691_37);
+Obj _3513291_37 = PRIM_CAR(l);
+Obj _3513292_37 = makeCons(co->gc, _3513041_37, Nil);
+Obj _3513293_37 = makeCons(co->gc, True, _3513292_37);
+Obj _3513294_37 = makeCons(co->gc, _3513291_37, _3513293_37);
+Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513294_37);
+coraReturn(co, _3513295_37);
 return;
 }
 }
@@ -3551,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512667_37 = PRIM_CDR(exp);
-Obj _3512668_37 = PRIM_EQ(Nil, _3512667_37);
-if (True == _3512668_37) {
-Obj _3512669_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3512670_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3512669_37);
-coraReturn(co, _3512670_37);
+Obj _3513271_37 = PRIM_CDR(exp);
+Obj _3513272_37 = PRIM_EQ(Nil, _3513271_37);
+if (True == _3513272_37) {
+Obj _3513273_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj _3513274_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513273_37);
+coraReturn(co, _3513274_37);
 return;
 } else {
 R[1] = exp;
@@ -3567,38 +3567,38 @@ return;
 }
 case 1:
 {
-Obj _3512674_37= co->res;
-Obj _3512673_37 = R[1];
-Obj _3512672_37 = R[2];
-Obj _3512675_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3512674_37);
-Obj _3512676_37 = makeCons(co->gc, _3512675_37, Nil);
-Obj _3512677_37 = makeCons(co->gc, _3512673_37, _3512676_37);
-Obj _3512678_37 = makeCons(co->gc, _3512672_37, _3512677_37);
-Obj _3512679_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3512678_37);
-coraReturn(co, _3512679_37);
+Obj _3513278_37= co->res;
+Obj _3513277_37 = R[1];
+Obj _3513276_37 = R[2];
+Obj _3513279_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513278_37);
+Obj _3513280_37 = makeCons(co->gc, _3513279_37, Nil);
+Obj _3513281_37 = makeCons(co->gc, _3513277_37, _3513280_37);
+Obj _3513282_37 = makeCons(co->gc, _3513276_37, _3513281_37);
+Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513282_37);
+coraReturn(co, _3513283_37);
 return;
 }
 case 2:
 {
-Obj _3512673_37= co->res;
+Obj _3513277_37= co->res;
 Obj exp = R[1];
-Obj _3512672_37 = R[2];
-R[1] = _3512673_37;
-R[2] = _3512672_37;
+Obj _3513276_37 = R[2];
+R[1] = _3513277_37;
+R[2] = _3513276_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 3:
 {
-Obj _3512671_37= co->res;
+Obj _3513275_37= co->res;
 Obj exp = R[1];
-Obj curr = _3512671_37;
-Obj _3512672_37 = PRIM_CAR(curr);
+Obj _3513040_37 = _3513275_37;
+Obj _3513276_37 = PRIM_CAR(_3513040_37);
 R[1] = exp;
-R[2] = _3512672_37;
+R[2] = _3513276_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), curr);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), _3513040_37);
 return;
 }
 }
@@ -3609,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512665_37 = PRIM_CDR(exp);
+Obj _3513269_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512665_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3513269_37);
 return;
 }
 }
@@ -3622,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512653_37 = PRIM_CDR(exp);
+Obj _3513257_37 = PRIM_CDR(exp);
 R[1] = exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3512653_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513257_37);
 return;
 }
 case 1:
 {
-Obj _3512659_37= co->res;
-Obj _3512657_37 = R[1];
-Obj _3512656_37 = R[2];
-Obj _3512660_37 = makeCons(co->gc, _3512659_37, Nil);
-Obj _3512661_37 = makeCons(co->gc, _3512657_37, _3512660_37);
-Obj _3512662_37 = makeCons(co->gc, _3512656_37, _3512661_37);
-Obj _3512663_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3512662_37);
-coraReturn(co, _3512663_37);
+Obj _3513263_37= co->res;
+Obj _3513261_37 = R[1];
+Obj _3513260_37 = R[2];
+Obj _3513264_37 = makeCons(co->gc, _3513263_37, Nil);
+Obj _3513265_37 = makeCons(co->gc, _3513261_37, _3513264_37);
+Obj _3513266_37 = makeCons(co->gc, _3513260_37, _3513265_37);
+Obj _3513267_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513266_37);
+coraReturn(co, _3513267_37);
 return;
 }
 case 2:
 {
-Obj _3512658_37= co->res;
-Obj _3512657_37 = R[1];
-Obj _3512656_37 = R[2];
-R[1] = _3512657_37;
-R[2] = _3512656_37;
+Obj _3513262_37= co->res;
+Obj _3513261_37 = R[1];
+Obj _3513260_37 = R[2];
+R[1] = _3513261_37;
+R[2] = _3513260_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3512658_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3513262_37);
 return;
 }
 case 3:
 {
-Obj _3512657_37= co->res;
+Obj _3513261_37= co->res;
 Obj exp = R[1];
-Obj _3512656_37 = R[2];
-R[1] = _3512657_37;
-R[2] = _3512656_37;
+Obj _3513260_37 = R[2];
+R[1] = _3513261_37;
+R[2] = _3513260_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
 return;
 }
 case 4:
 {
-Obj _3512654_37= co->res;
+Obj _3513258_37= co->res;
 Obj exp = R[1];
-if (True == _3512654_37) {
-Obj _3512655_37 = PRIM_CAR(exp);
-coraReturn(co, _3512655_37);
+if (True == _3513258_37) {
+Obj _3513259_37 = PRIM_CAR(exp);
+coraReturn(co, _3513259_37);
 return;
 } else {
-Obj _3512656_37 = PRIM_CAR(exp);
+Obj _3513260_37 = PRIM_CAR(exp);
 R[1] = exp;
-R[2] = _3512656_37;
+R[2] = _3513260_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
@@ -3687,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512650_37 = PRIM_ISCONS(x);
-Obj _3512651_37 = primNot(_3512650_37);
-coraReturn(co, _3512651_37);
+Obj _3513254_37 = PRIM_ISCONS(x);
+Obj _3513255_37 = primNot(_3513254_37);
+coraReturn(co, _3513255_37);
 return;
 }
 }
@@ -3701,17 +3701,17 @@ case 0:
 {
 Obj x = R[1];
 Obj l = R[2];
-Obj _3512645_37 = PRIM_ISCONS(l);
-if (True == _3512645_37) {
-Obj _3512646_37 = PRIM_CAR(l);
-Obj _3512647_37 = PRIM_EQ(_3512646_37, x);
-if (True == _3512647_37) {
+Obj _3513249_37 = PRIM_ISCONS(l);
+if (True == _3513249_37) {
+Obj _3513250_37 = PRIM_CAR(l);
+Obj _3513251_37 = PRIM_EQ(_3513250_37, x);
+if (True == _3513251_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3512648_37 = PRIM_CDR(l);
+Obj _3513252_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3512648_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3513252_37);
 return;
 }
 } else {
@@ -3734,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj _3512637_37= co->res;
-Obj _3512636_37 = R[1];
-Obj _3512635_37 = R[2];
-Obj _3512638_37 = makeCons(co->gc, _3512637_37, Nil);
-Obj _3512639_37 = makeCons(co->gc, _3512636_37, _3512638_37);
-Obj _3512640_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512639_37);
-Obj _3512641_37 = makeCons(co->gc, _3512640_37, Nil);
-Obj _3512642_37 = makeCons(co->gc, _3512635_37, _3512641_37);
-Obj _3512643_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3512642_37);
-coraReturn(co, _3512643_37);
+Obj _3513241_37= co->res;
+Obj _3513240_37 = R[1];
+Obj _3513239_37 = R[2];
+Obj _3513242_37 = makeCons(co->gc, _3513241_37, Nil);
+Obj _3513243_37 = makeCons(co->gc, _3513240_37, _3513242_37);
+Obj _3513244_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513243_37);
+Obj _3513245_37 = makeCons(co->gc, _3513244_37, Nil);
+Obj _3513246_37 = makeCons(co->gc, _3513239_37, _3513245_37);
+Obj _3513247_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513246_37);
+coraReturn(co, _3513247_37);
 return;
 }
 case 2:
 {
-Obj _3512636_37= co->res;
+Obj _3513240_37= co->res;
 Obj exp = R[1];
-Obj _3512635_37 = R[2];
-R[1] = _3512636_37;
-R[2] = _3512635_37;
+Obj _3513239_37 = R[2];
+R[1] = _3513240_37;
+R[2] = _3513239_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
 return;
 }
 case 3:
 {
-Obj _3512635_37= co->res;
+Obj _3513239_37= co->res;
 Obj exp = R[1];
 R[1] = exp;
-R[2] = _3512635_37;
+R[2] = _3513239_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3775,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512633_37 = PRIM_CDR(exp);
+Obj _3513237_37 = PRIM_CDR(exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512633_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3513237_37);
 return;
 }
 }
@@ -3795,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj _3512625_37= co->res;
-Obj _3512624_37 = R[1];
-Obj _3512623_37 = R[2];
-Obj _3512626_37 = makeCons(co->gc, _3512624_37, _3512625_37);
-Obj _3512627_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512626_37);
-Obj _3512628_37 = makeCons(co->gc, _3512627_37, Nil);
-Obj _3512629_37 = makeCons(co->gc, _3512623_37, _3512628_37);
-Obj _3512630_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3512629_37);
-coraReturn(co, _3512630_37);
+Obj _3513229_37= co->res;
+Obj _3513228_37 = R[1];
+Obj _3513227_37 = R[2];
+Obj _3513230_37 = makeCons(co->gc, _3513228_37, _3513229_37);
+Obj _3513231_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513230_37);
+Obj _3513232_37 = makeCons(co->gc, _3513231_37, Nil);
+Obj _3513233_37 = makeCons(co->gc, _3513227_37, _3513232_37);
+Obj _3513234_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3513233_37);
+coraReturn(co, _3513234_37);
 return;
 }
 case 2:
 {
-Obj _3512624_37= co->res;
+Obj _3513228_37= co->res;
 Obj exp = R[1];
-Obj _3512623_37 = R[2];
-R[1] = _3512624_37;
-R[2] = _3512623_37;
+Obj _3513227_37 = R[2];
+R[1] = _3513228_37;
+R[2] = _3513227_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
 return;
 }
 case 3:
 {
-Obj _3512621_37= co->res;
+Obj _3513225_37= co->res;
 Obj exp = R[1];
-Obj _3512622_37 = makeCons(co->gc, _3512621_37, Nil);
-Obj _3512623_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3512622_37);
+Obj _3513226_37 = makeCons(co->gc, _3513225_37, Nil);
+Obj _3513227_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513226_37);
 R[1] = exp;
-R[2] = _3512623_37;
+R[2] = _3513227_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
@@ -3837,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512603_37 = PRIM_ISCONS(exp);
-if (True == _3512603_37) {
-Obj _3512604_37 = PRIM_CAR(exp);
-Obj _3512605_37 = PRIM_EQ(_3512604_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3512605_37) {
-Obj _3512606_37 = PRIM_CDR(exp);
-coraReturn(co, _3512606_37);
-return;
-} else {
-Obj _3512607_37 = PRIM_CAR(exp);
-Obj _3512608_37 = PRIM_EQ(_3512607_37, getBinding(co, packageID, 140).name);
-if (True == _3512608_37) {
+Obj _3513207_37 = PRIM_ISCONS(exp);
+if (True == _3513207_37) {
+Obj _3513208_37 = PRIM_CAR(exp);
+Obj _3513209_37 = PRIM_EQ(_3513208_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == _3513209_37) {
+Obj _3513210_37 = PRIM_CDR(exp);
+coraReturn(co, _3513210_37);
+return;
+} else {
+Obj _3513211_37 = PRIM_CAR(exp);
+Obj _3513212_37 = PRIM_EQ(_3513211_37, getBinding(co, packageID, 140).name);
+if (True == _3513212_37) {
 R[1] = exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
 return;
 } else {
-Obj _3512615_37 = PRIM_CAR(exp);
-Obj _3512616_37 = PRIM_EQ(_3512615_37, getBinding(co, packageID, 139).name);
-if (True == _3512616_37) {
+Obj _3513219_37 = PRIM_CAR(exp);
+Obj _3513220_37 = PRIM_EQ(_3513219_37, getBinding(co, packageID, 139).name);
+if (True == _3513220_37) {
 coraReturn(co, exp);
 return;
 } else {
@@ -3874,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj _3512611_37= co->res;
-Obj _3512609_37 = R[1];
-Obj _3512612_37 = makeCons(co->gc, _3512611_37, Nil);
-Obj _3512613_37 = makeCons(co->gc, _3512609_37, _3512612_37);
-Obj _3512614_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3512613_37);
-coraReturn(co, _3512614_37);
+Obj _3513215_37= co->res;
+Obj _3513213_37 = R[1];
+Obj _3513216_37 = makeCons(co->gc, _3513215_37, Nil);
+Obj _3513217_37 = makeCons(co->gc, _3513213_37, _3513216_37);
+Obj _3513218_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513217_37);
+coraReturn(co, _3513218_37);
 return;
 }
 case 2:
 {
-Obj _3512610_37= co->res;
-Obj _3512609_37 = R[1];
-R[1] = _3512609_37;
+Obj _3513214_37= co->res;
+Obj _3513213_37 = R[1];
+R[1] = _3513213_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3512610_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3513214_37);
 return;
 }
 case 3:
 {
-Obj _3512609_37= co->res;
+Obj _3513213_37= co->res;
 Obj exp = R[1];
-R[1] = _3512609_37;
+R[1] = _3513213_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
 return;
 }
 case 4:
 {
-Obj _3512618_37= co->res;
+Obj _3513222_37= co->res;
 Obj exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3512618_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3513222_37);
 return;
 }
 }
@@ -3916,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp1 = R[1];
-Obj _3512617_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3512617_37) {
+Obj _3513221_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
+if (True == _3513221_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
 return;
@@ -3948,14 +3948,14 @@ case 0:
 {
 Obj exp = R[1];
 Obj macros = R[2];
-Obj _3512593_37 = PRIM_EQ(Nil, macros);
-if (True == _3512593_37) {
+Obj _3513197_37 = PRIM_EQ(Nil, macros);
+if (True == _3513197_37) {
 coraReturn(co, exp);
 return;
 } else {
-Obj _3512600_37 = PRIM_CAR(macros);
+Obj _3513204_37 = PRIM_CAR(macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3512600_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3513204_37);
 return;
 }
 }
@@ -3967,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj item = R[1];
-Obj _3512521_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3512596_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3512596_37) {
-Obj _3512597_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3512598_37 = PRIM_CAR(item);
-Obj _3512599_37 = PRIM_EQ(_3512597_37, _3512598_37);
-if (True == _3512599_37) {
+Obj _3513039_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3513200_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3513200_37) {
+Obj _3513201_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3513202_37 = PRIM_CAR(item);
+Obj _3513203_37 = PRIM_EQ(_3513201_37, _3513202_37);
+if (True == _3513203_37) {
 co->ctx.sp = R;
-coraCall1(co, _3512521_37, True);
+coraCall1(co, _3513039_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512521_37, False);
+coraCall1(co, _3513039_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3512521_37, False);
+coraCall1(co, _3513039_37, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512522_37 = R[1];
-if (True == _3512522_37) {
-Obj _3512594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3513038_37 = R[1];
+if (True == _3513038_37) {
+Obj _3513198_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3512594_37, closureRef(R[0], 1));
+coraCall1(co, _3513198_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3512595_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3513199_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3512595_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3513199_37);
 return;
 }
 }
@@ -4017,10 +4017,10 @@ case 0:
 {
 Obj n = R[1];
 Obj v = R[2];
-Obj _3512589_37 = makeCons(co->gc, n, v);
-Obj _3512590_37 = makeCons(co->gc, _3512589_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3512591_37 = primSet(co, getBinding(co, packageID, 146).name, _3512590_37);
-coraReturn(co, _3512591_37);
+Obj _3513193_37 = makeCons(co->gc, n, v);
+Obj _3513194_37 = makeCons(co->gc, _3513193_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj _3513195_37 = primSet(co, getBinding(co, packageID, 146).name, _3513194_37);
+coraReturn(co, _3513195_37);
 return;
 }
 }
@@ -4046,14 +4046,14 @@ case 0:
 Obj res = R[1];
 Obj f = R[2];
 Obj l = R[3];
-Obj _3512579_37 = PRIM_ISCONS(l);
-if (True == _3512579_37) {
-Obj _3512580_37 = PRIM_CAR(l);
+Obj _3513183_37 = PRIM_ISCONS(l);
+if (True == _3513183_37) {
+Obj _3513184_37 = PRIM_CAR(l);
 R[1] = res;
 R[2] = l;
 R[3] = f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3512580_37);
+coraCall1(co, f, _3513184_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4063,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj _3512581_37= co->res;
+Obj _3513185_37= co->res;
 Obj res = R[1];
 Obj l = R[2];
 Obj f = R[3];
-Obj _3512582_37 = makeCons(co->gc, _3512581_37, res);
-Obj _3512583_37 = PRIM_CDR(l);
+Obj _3513186_37 = makeCons(co->gc, _3513185_37, res);
+Obj _3513187_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3512582_37, f, _3512583_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3513186_37, f, _3513187_37);
 return;
 }
 }
@@ -4082,13 +4082,13 @@ case 0:
 {
 Obj res = R[1];
 Obj l = R[2];
-Obj _3512572_37 = PRIM_ISCONS(l);
-if (True == _3512572_37) {
-Obj _3512573_37 = PRIM_CAR(l);
-Obj _3512574_37 = makeCons(co->gc, _3512573_37, res);
-Obj _3512575_37 = PRIM_CDR(l);
+Obj _3513176_37 = PRIM_ISCONS(l);
+if (True == _3513176_37) {
+Obj _3513177_37 = PRIM_CAR(l);
+Obj _3513178_37 = makeCons(co->gc, _3513177_37, res);
+Obj _3513179_37 = PRIM_CDR(l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3512574_37, _3512575_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3513178_37, _3513179_37);
 return;
 } else {
 coraReturn(co, res);
@@ -4103,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512570_37 = PRIM_ISCONS(x);
-coraReturn(co, _3512570_37);
+Obj _3513174_37 = PRIM_ISCONS(x);
+coraReturn(co, _3513174_37);
 return;
 }
 }
@@ -4115,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj exp = R[1];
-Obj _3512562_37 = PRIM_ISCONS(exp);
-if (True == _3512562_37) {
-Obj _3512563_37 = PRIM_CAR(exp);
-Obj _3512564_37 = PRIM_CDR(exp);
-R[1] = _3512563_37;
+Obj _3513166_37 = PRIM_ISCONS(exp);
+if (True == _3513166_37) {
+Obj _3513167_37 = PRIM_CAR(exp);
+Obj _3513168_37 = PRIM_CDR(exp);
+R[1] = _3513167_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3512564_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3513168_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj _3512565_37= co->res;
-Obj _3512563_37 = R[1];
-Obj _3512566_37 = makeCons(co->gc, _3512565_37, Nil);
-Obj _3512567_37 = makeCons(co->gc, _3512563_37, _3512566_37);
-Obj _3512568_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3512567_37);
-coraReturn(co, _3512568_37);
+Obj _3513169_37= co->res;
+Obj _3513167_37 = R[1];
+Obj _3513170_37 = makeCons(co->gc, _3513169_37, Nil);
+Obj _3513171_37 = makeCons(co->gc, _3513167_37, _3513170_37);
+Obj _3513172_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513171_37);
+coraReturn(co, _3513172_37);
 return;
 }
 }
@@ -4146,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512558_37 = PRIM_CDR(x);
-Obj _3512559_37 = PRIM_CDR(_3512558_37);
-Obj _3512560_37 = PRIM_CDR(_3512559_37);
-coraReturn(co, _3512560_37);
+Obj _3513162_37 = PRIM_CDR(x);
+Obj _3513163_37 = PRIM_CDR(_3513162_37);
+Obj _3513164_37 = PRIM_CDR(_3513163_37);
+coraReturn(co, _3513164_37);
 return;
 }
 }
@@ -4160,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512553_37 = PRIM_CDR(x);
-Obj _3512554_37 = PRIM_CDR(_3512553_37);
-Obj _3512555_37 = PRIM_CDR(_3512554_37);
-Obj _3512556_37 = PRIM_CAR(_3512555_37);
-coraReturn(co, _3512556_37);
+Obj _3513157_37 = PRIM_CDR(x);
+Obj _3513158_37 = PRIM_CDR(_3513157_37);
+Obj _3513159_37 = PRIM_CDR(_3513158_37);
+Obj _3513160_37 = PRIM_CAR(_3513159_37);
+coraReturn(co, _3513160_37);
 return;
 }
 }
@@ -4175,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512549_37 = PRIM_CDR(x);
-Obj _3512550_37 = PRIM_CDR(_3512549_37);
-Obj _3512551_37 = PRIM_CAR(_3512550_37);
-coraReturn(co, _3512551_37);
+Obj _3513153_37 = PRIM_CDR(x);
+Obj _3513154_37 = PRIM_CDR(_3513153_37);
+Obj _3513155_37 = PRIM_CAR(_3513154_37);
+coraReturn(co, _3513155_37);
 return;
 }
 }
@@ -4189,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512546_37 = PRIM_CDR(x);
-Obj _3512547_37 = PRIM_CDR(_3512546_37);
-coraReturn(co, _3512547_37);
+Obj _3513150_37 = PRIM_CDR(x);
+Obj _3513151_37 = PRIM_CDR(_3513150_37);
+coraReturn(co, _3513151_37);
 return;
 }
 }
@@ -4202,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512543_37 = PRIM_CAR(x);
-Obj _3512544_37 = PRIM_CDR(_3512543_37);
-coraReturn(co, _3512544_37);
+Obj _3513147_37 = PRIM_CAR(x);
+Obj _3513148_37 = PRIM_CDR(_3513147_37);
+coraReturn(co, _3513148_37);
 return;
 }
 }
@@ -4215,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512540_37 = PRIM_CAR(x);
-Obj _3512541_37 = PRIM_CAR(_3512540_37);
-coraReturn(co, _3512541_37);
+Obj _3513144_37 = PRIM_CAR(x);
+Obj _3513145_37 = PRIM_CAR(_3513144_37);
+coraReturn(co, _3513145_37);
 return;
 }
 }
@@ -4228,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512537_37 = PRIM_CDR(x);
-Obj _3512538_37 = PRIM_CAR(_3512537_37);
-coraReturn(co, _3512538_37);
+Obj _3513141_37 = PRIM_CDR(x);
+Obj _3513142_37 = PRIM_CAR(_3513141_37);
+coraReturn(co, _3513142_37);
 return;
 }
 }
@@ -4241,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj x = R[1];
-Obj _3512535_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3512535_37);
+Obj _3513139_37 = PRIM_EQ(x, Nil);
+coraReturn(co, _3513139_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index a9124a4..669a595 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
 static void clofun142(struct Cora* co, int label, Obj *R);
@@ -233,21 +234,21 @@ __symbolTable[77] = bindSymbol(co, intern("%closure-ref"));
 __symbolTable[78] = bindSymbol(co, intern("%closure"));
 __symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
 __symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[82] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[84] = bindSymbol(co, intern("quote"));
-__symbolTable[85] = bindSymbol(co, intern("do"));
-__symbolTable[86] = bindSymbol(co, intern("let"));
-__symbolTable[87] = bindSymbol(co, intern("if"));
-__symbolTable[88] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[89] = bindSymbol(co, intern("lambda"));
-__symbolTable[90] = bindSymbol(co, intern("%builtin"));
-__symbolTable[91] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[93] = bindSymbol(co, intern("%global"));
-__symbolTable[94] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[95] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[81] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[84] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[85] = bindSymbol(co, intern("quote"));
+__symbolTable[86] = bindSymbol(co, intern("do"));
+__symbolTable[87] = bindSymbol(co, intern("let"));
+__symbolTable[88] = bindSymbol(co, intern("if"));
+__symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[90] = bindSymbol(co, intern("lambda"));
+__symbolTable[91] = bindSymbol(co, intern("%builtin"));
+__symbolTable[92] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[93] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[94] = bindSymbol(co, intern("%global"));
+__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
 __symbolTable[96] = bindSymbol(co, intern("%const"));
 __symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#parse"));
 __symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
@@ -285,434 +286,434 @@ __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun144;
+co->ctx.fn = clofun145;
 co->ctx.label = 0;
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun144, 4, R);
+saveCont(co, clofun145, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj _3518230_37= co->res;
-Obj _3518236_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun110, 2, 0));
-Obj _3518242_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3518264_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun113, 3, 0));
-Obj _3518287_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun115, 4, 0));
-Obj _3518299_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun118, 3, 0));
-Obj _3518340_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun123, 1, 0));
-Obj _3518379_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun126, 4, 0));
-Obj _3518431_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun131, 2, 0));
-Obj _3518432_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3518446_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun140, 1, 0));
-Obj _3518447_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3518460_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun142, 1, 0));
-Obj _3518470_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun143, 2, 0));
-coraReturn(co, _3518470_37);
+Obj _3519096_37= co->res;
+Obj _3519102_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj _3519108_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj _3519130_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
+Obj _3519153_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun116, 4, 0));
+Obj _3519165_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun119, 3, 0));
+Obj _3519206_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
+Obj _3519245_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
+Obj _3519297_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj _3519298_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj _3519312_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
+Obj _3519313_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj _3519326_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
+Obj _3519336_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
+coraReturn(co, _3519336_37);
 return;
 }
 case 2:
 {
-Obj _3516848_37= co->res;
-Obj _3516849_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3516864_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3516870_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3516880_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3516881_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3516888_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3516889_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3516890_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516889_37);
-Obj _3516891_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3516890_37);
-Obj _3516892_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3516893_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516892_37);
-Obj _3516894_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3516893_37);
-Obj _3516895_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3516896_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516895_37);
-Obj _3516897_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3516896_37);
-Obj _3516898_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3516899_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516898_37);
-Obj _3516900_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3516899_37);
-Obj _3516901_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3516902_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516901_37);
-Obj _3516903_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3516902_37);
-Obj _3516904_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3516905_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516904_37);
-Obj _3516906_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3516905_37);
-Obj _3516907_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3516908_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516907_37);
-Obj _3516909_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3516908_37);
-Obj _3516910_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3516911_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516910_37);
-Obj _3516912_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3516911_37);
-Obj _3516913_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3516914_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516913_37);
-Obj _3516915_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3516914_37);
-Obj _3516916_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3516917_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516916_37);
-Obj _3516918_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3516917_37);
-Obj _3516919_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3516920_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516919_37);
-Obj _3516921_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3516920_37);
-Obj _3516922_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3516923_37 = makeCons(co->gc, MAKE_NUMBER(2), _3516922_37);
-Obj _3516924_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3516923_37);
-Obj _3516925_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3516926_37 = makeCons(co->gc, MAKE_NUMBER(0), _3516925_37);
-Obj _3516927_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3516926_37);
-Obj _3516928_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3516929_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516928_37);
-Obj _3516930_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3516929_37);
-Obj _3516931_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3516932_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516931_37);
-Obj _3516933_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3516932_37);
-Obj _3516934_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3516935_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516934_37);
-Obj _3516936_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3516935_37);
-Obj _3516937_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3516938_37 = makeCons(co->gc, MAKE_NUMBER(1), _3516937_37);
-Obj _3516939_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3516938_37);
-Obj _3516940_37 = makeCons(co->gc, _3516939_37, Nil);
-Obj _3516941_37 = makeCons(co->gc, _3516936_37, _3516940_37);
-Obj _3516942_37 = makeCons(co->gc, _3516933_37, _3516941_37);
-Obj _3516943_37 = makeCons(co->gc, _3516930_37, _3516942_37);
-Obj _3516944_37 = makeCons(co->gc, _3516927_37, _3516943_37);
-Obj _3516945_37 = makeCons(co->gc, _3516924_37, _3516944_37);
-Obj _3516946_37 = makeCons(co->gc, _3516921_37, _3516945_37);
-Obj _3516947_37 = makeCons(co->gc, _3516918_37, _3516946_37);
-Obj _3516948_37 = makeCons(co->gc, _3516915_37, _3516947_37);
-Obj _3516949_37 = makeCons(co->gc, _3516912_37, _3516948_37);
-Obj _3516950_37 = makeCons(co->gc, _3516909_37, _3516949_37);
-Obj _3516951_37 = makeCons(co->gc, _3516906_37, _3516950_37);
-Obj _3516952_37 = makeCons(co->gc, _3516903_37, _3516951_37);
-Obj _3516953_37 = makeCons(co->gc, _3516900_37, _3516952_37);
-Obj _3516954_37 = makeCons(co->gc, _3516897_37, _3516953_37);
-Obj _3516955_37 = makeCons(co->gc, _3516894_37, _3516954_37);
-Obj _3516956_37 = makeCons(co->gc, _3516891_37, _3516955_37);
-Obj _3516957_37 = primSet(co, getBinding(co, packageID, 122).name, _3516956_37);
-Obj _3516961_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3516964_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3516967_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3516972_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3517166_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun20, 3, 0));
-Obj _3517177_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun22, 2, 0));
-Obj _3517188_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj _3517249_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun31, 1, 0));
-Obj _3517424_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun41, 1, 0));
-Obj _3517497_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun44, 2, 0));
-Obj _3517500_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun45, 1, 0));
-Obj _3517637_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3517660_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun57, 3, 0));
-Obj _3517737_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun61, 2, 0));
-Obj _3517768_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun65, 3, 0));
-Obj _3517774_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun68, 4, 0));
-Obj _3517779_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun70, 2, 0));
-Obj _3517788_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun72, 1, 0));
-Obj _3517839_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun74, 2, 0));
-Obj _3517847_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun75, 2, 0));
-Obj _3517854_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun76, 2, 0));
-Obj _3517859_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj _3517865_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun78, 3, 0));
-Obj _3517866_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj _3517873_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun81, 5, 0));
-Obj _3517880_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj _3518167_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun96, 5, 0));
-Obj _3518181_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj _3518203_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun100, 5, 0));
-Obj _3518205_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun101, 2, 0));
-Obj _3518209_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3518210_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3518211_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun104, 1, 0));
-Obj _3518212_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3518213_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3518220_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun107, 1, 0));
-Obj _3518227_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun108, 2, 0));
-saveCont(co, clofun144, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj _3517708_37= co->res;
+Obj _3517709_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj _3517724_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj _3517730_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj _3517740_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj _3517741_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj _3517748_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj _3517749_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj _3517750_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517749_37);
+Obj _3517751_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3517750_37);
+Obj _3517752_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj _3517753_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517752_37);
+Obj _3517754_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3517753_37);
+Obj _3517755_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj _3517756_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517755_37);
+Obj _3517757_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3517756_37);
+Obj _3517758_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj _3517759_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517758_37);
+Obj _3517760_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3517759_37);
+Obj _3517761_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj _3517762_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517761_37);
+Obj _3517763_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3517762_37);
+Obj _3517764_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj _3517765_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517764_37);
+Obj _3517766_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3517765_37);
+Obj _3517767_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj _3517768_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517767_37);
+Obj _3517769_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3517768_37);
+Obj _3517770_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj _3517771_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517770_37);
+Obj _3517772_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3517771_37);
+Obj _3517773_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj _3517774_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517773_37);
+Obj _3517775_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3517774_37);
+Obj _3517776_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj _3517777_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517776_37);
+Obj _3517778_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3517777_37);
+Obj _3517779_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj _3517780_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517779_37);
+Obj _3517781_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3517780_37);
+Obj _3517782_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj _3517783_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517782_37);
+Obj _3517784_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3517783_37);
+Obj _3517785_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj _3517786_37 = makeCons(co->gc, MAKE_NUMBER(0), _3517785_37);
+Obj _3517787_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3517786_37);
+Obj _3517788_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj _3517789_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517788_37);
+Obj _3517790_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3517789_37);
+Obj _3517791_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj _3517792_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517791_37);
+Obj _3517793_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3517792_37);
+Obj _3517794_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj _3517795_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517794_37);
+Obj _3517796_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3517795_37);
+Obj _3517797_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj _3517798_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517797_37);
+Obj _3517799_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3517798_37);
+Obj _3517800_37 = makeCons(co->gc, _3517799_37, Nil);
+Obj _3517801_37 = makeCons(co->gc, _3517796_37, _3517800_37);
+Obj _3517802_37 = makeCons(co->gc, _3517793_37, _3517801_37);
+Obj _3517803_37 = makeCons(co->gc, _3517790_37, _3517802_37);
+Obj _3517804_37 = makeCons(co->gc, _3517787_37, _3517803_37);
+Obj _3517805_37 = makeCons(co->gc, _3517784_37, _3517804_37);
+Obj _3517806_37 = makeCons(co->gc, _3517781_37, _3517805_37);
+Obj _3517807_37 = makeCons(co->gc, _3517778_37, _3517806_37);
+Obj _3517808_37 = makeCons(co->gc, _3517775_37, _3517807_37);
+Obj _3517809_37 = makeCons(co->gc, _3517772_37, _3517808_37);
+Obj _3517810_37 = makeCons(co->gc, _3517769_37, _3517809_37);
+Obj _3517811_37 = makeCons(co->gc, _3517766_37, _3517810_37);
+Obj _3517812_37 = makeCons(co->gc, _3517763_37, _3517811_37);
+Obj _3517813_37 = makeCons(co->gc, _3517760_37, _3517812_37);
+Obj _3517814_37 = makeCons(co->gc, _3517757_37, _3517813_37);
+Obj _3517815_37 = makeCons(co->gc, _3517754_37, _3517814_37);
+Obj _3517816_37 = makeCons(co->gc, _3517751_37, _3517815_37);
+Obj _3517817_37 = primSet(co, getBinding(co, packageID, 122).name, _3517816_37);
+Obj _3517821_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj _3517824_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj _3517827_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj _3517832_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj _3518032_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun21, 3, 0));
+Obj _3518043_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun23, 2, 0));
+Obj _3518054_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun25, 2, 0));
+Obj _3518115_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj _3518290_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun42, 1, 0));
+Obj _3518363_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj _3518366_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
+Obj _3518503_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj _3518526_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj _3518603_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj _3518634_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
+Obj _3518640_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
+Obj _3518645_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj _3518654_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
+Obj _3518705_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
+Obj _3518713_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
+Obj _3518720_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
+Obj _3518725_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj _3518731_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
+Obj _3518732_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj _3518739_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
+Obj _3518746_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj _3519033_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
+Obj _3519047_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj _3519069_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
+Obj _3519071_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj _3519075_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj _3519076_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj _3519077_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj _3519078_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj _3519079_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj _3519086_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
+Obj _3519093_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
+saveCont(co, clofun145, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun110, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3516847_37= co->res;
-saveCont(co, clofun144, 2, R);
+Obj _3517707_37= co->res;
+saveCont(co, clofun145, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3516846_37= co->res;
-saveCont(co, clofun144, 3, R);
+Obj _3517706_37= co->res;
+saveCont(co, clofun145, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj from = R[1];
 Obj to = R[2];
-Obj _3518461_37 = primGenSym(co);
-Obj globals = _3518461_37;
-Obj _3518462_37 = primSet(co, globals, Nil);
+Obj _3519327_37 = primGenSym(co);
+Obj _3517703_37 = _3519327_37;
+Obj _3519328_37 = primSet(co, _3517703_37, Nil);
 R[1] = from;
 R[2] = to;
-R[3] = globals;
-saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), globals);
+R[3] = _3517703_37;
+saveCont(co, clofun144, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), _3517703_37);
 return;
 }
 case 1:
 {
-Obj _3518469_37= co->res;
-Obj stream = R[1];
+Obj _3519335_37= co->res;
+Obj _3517705_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), stream);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), _3517705_37);
 return;
 }
 case 2:
 {
-Obj _3518468_37= co->res;
-Obj bc = R[1];
-Obj stream = R[2];
-R[1] = stream;
-saveCont(co, clofun143, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), stream, bc, _3518468_37);
+Obj _3519334_37= co->res;
+Obj _3517704_37 = R[1];
+Obj _3517705_37 = R[2];
+R[1] = _3517705_37;
+saveCont(co, clofun144, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), _3517705_37, _3517704_37, _3519334_37);
 return;
 }
 case 3:
 {
-Obj _3518467_37= co->res;
-Obj globals = R[1];
-Obj bc = R[2];
-Obj stream = _3518467_37;
-R[1] = bc;
-R[2] = stream;
-saveCont(co, clofun143, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+Obj _3519333_37= co->res;
+Obj _3517703_37 = R[1];
+Obj _3517704_37 = R[2];
+Obj _3517705_37 = _3519333_37;
+R[1] = _3517704_37;
+R[2] = _3517705_37;
+saveCont(co, clofun144, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517703_37);
 return;
 }
 case 4:
 {
-Obj _3518466_37= co->res;
+Obj _3519332_37= co->res;
 Obj to = R[1];
-Obj globals = R[2];
-Obj bc = _3518466_37;
-R[1] = globals;
-R[2] = bc;
-saveCont(co, clofun143, 3, R);
+Obj _3517703_37 = R[2];
+Obj _3517704_37 = _3519332_37;
+R[1] = _3517703_37;
+R[2] = _3517704_37;
+saveCont(co, clofun144, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
 return;
 }
 case 5:
 {
-Obj _3518465_37= co->res;
-Obj _3518463_37 = R[1];
+Obj _3519331_37= co->res;
+Obj _3519329_37 = R[1];
 Obj to = R[2];
-Obj globals = R[3];
+Obj _3517703_37 = R[3];
 R[1] = to;
-R[2] = globals;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, _3518463_37, _3518465_37);
+R[2] = _3517703_37;
+saveCont(co, clofun144, 4, R);
+coraCall1(co, _3519329_37, _3519331_37);
 return;
 }
 case 6:
 {
-Obj _3518464_37= co->res;
-Obj _3518463_37 = R[1];
+Obj _3519330_37= co->res;
+Obj _3519329_37 = R[1];
 Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518463_37;
+Obj _3517703_37 = R[3];
+R[1] = _3519329_37;
 R[2] = to;
-R[3] = globals;
-saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3518464_37);
+R[3] = _3517703_37;
+saveCont(co, clofun144, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3519330_37);
 return;
 }
 case 7:
 {
-Obj _3518463_37= co->res;
+Obj _3519329_37= co->res;
 Obj from = R[1];
 Obj to = R[2];
-Obj globals = R[3];
-R[1] = _3518463_37;
+Obj _3517703_37 = R[3];
+R[1] = _3519329_37;
 R[2] = to;
-R[3] = globals;
-saveCont(co, clofun143, 6, R);
+R[3] = _3517703_37;
+saveCont(co, clofun144, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj file_45path = R[1];
-saveCont(co, clofun142, 8, R);
+saveCont(co, clofun143, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
 return;
 }
 case 1:
 {
-Obj _3518455_37= co->res;
-Obj sexp = R[1];
+Obj _3519321_37= co->res;
+Obj _3517699_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517699_37);
 return;
 }
 case 2:
 {
-Obj _3518454_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun142, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+Obj _3519320_37= co->res;
+Obj _3517699_37 = R[1];
+R[1] = _3517699_37;
+saveCont(co, clofun143, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517699_37);
 return;
 }
 case 3:
 {
-Obj _3518457_37= co->res;
-Obj sexp = R[1];
+Obj _3519323_37= co->res;
+Obj _3517699_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517699_37);
 return;
 }
 case 4:
 {
-Obj _3518456_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun142, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+Obj _3519322_37= co->res;
+Obj _3517699_37 = R[1];
+R[1] = _3517699_37;
+saveCont(co, clofun143, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517699_37);
 return;
 }
 case 5:
 {
-Obj _3518459_37= co->res;
-Obj sexp = R[1];
+Obj _3519325_37= co->res;
+Obj _3517699_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517699_37);
 return;
 }
 case 6:
 {
-Obj _3518458_37= co->res;
-Obj sexp = R[1];
-R[1] = sexp;
-saveCont(co, clofun142, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), sexp);
+Obj _3519324_37= co->res;
+Obj _3517699_37 = R[1];
+R[1] = _3517699_37;
+saveCont(co, clofun143, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517699_37);
 return;
 }
 case 7:
 {
-Obj _3518451_37= co->res;
-Obj _3516844_37 = R[1];
-Obj sexp = R[2];
-if (True == _3518451_37) {
-Obj _3518452_37 = PRIM_CAR(sexp);
-Obj _3518453_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518452_37);
-if (True == _3518453_37) {
-R[1] = sexp;
-saveCont(co, clofun142, 2, R);
-coraCall1(co, _3516844_37, True);
+Obj _3519317_37= co->res;
+Obj _3517702_37 = R[1];
+Obj _3517699_37 = R[2];
+if (True == _3519317_37) {
+Obj _3519318_37 = PRIM_CAR(_3517699_37);
+Obj _3519319_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519318_37);
+if (True == _3519319_37) {
+R[1] = _3517699_37;
+saveCont(co, clofun143, 2, R);
+coraCall1(co, _3517702_37, True);
 return;
 } else {
-R[1] = sexp;
-saveCont(co, clofun142, 4, R);
-coraCall1(co, _3516844_37, False);
+R[1] = _3517699_37;
+saveCont(co, clofun143, 4, R);
+coraCall1(co, _3517702_37, False);
 return;
 }
 } else {
-R[1] = sexp;
-saveCont(co, clofun142, 6, R);
-coraCall1(co, _3516844_37, False);
+R[1] = _3517699_37;
+saveCont(co, clofun143, 6, R);
+coraCall1(co, _3517702_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3518448_37= co->res;
-Obj sexp = _3518448_37;
-Obj _3516844_37 = makeNative(co->gc, 2, clofun141, 1, 1, sexp);
-R[1] = _3516844_37;
-R[2] = sexp;
-saveCont(co, clofun142, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), sexp);
+Obj _3519314_37= co->res;
+Obj _3517699_37 = _3519314_37;
+Obj _3517702_37 = makeNative(co->gc, 2, clofun142, 1, 1, _3517699_37);
+R[1] = _3517702_37;
+R[2] = _3517699_37;
+saveCont(co, clofun143, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517699_37);
 return;
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516845_37 = R[1];
-if (True == _3516845_37) {
-Obj _3518449_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3518449_37);
+Obj _3517701_37 = R[1];
+if (True == _3517701_37) {
+Obj _3519315_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, _3519315_37);
 return;
 } else {
-Obj _3518450_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3518450_37);
+Obj _3519316_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, _3519316_37);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516832_37 = R[1];
-Obj _3516833_37 = makeNative(co->gc, 1, clofun137, 0, 1, _3516832_37);
-Obj _3518441_37 = PRIM_ISCONS(_3516832_37);
-if (True == _3518441_37) {
-Obj _3518442_37 = PRIM_CAR(_3516832_37);
-Obj _3518443_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518442_37);
-if (True == _3518443_37) {
-Obj _3518444_37 = PRIM_CDR(_3516832_37);
-Obj more = _3518444_37;
-Obj _3518445_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, more);
+Obj _3517436_37 = R[1];
+Obj _3517695_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3517436_37);
+Obj _3519307_37 = PRIM_ISCONS(_3517436_37);
+if (True == _3519307_37) {
+Obj _3519308_37 = PRIM_CAR(_3517436_37);
+Obj _3519309_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519308_37);
+if (True == _3519309_37) {
+Obj _3519310_37 = PRIM_CDR(_3517436_37);
+Obj _3517698_37 = _3519310_37;
+Obj _3519311_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3517698_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518445_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519311_37, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516833_37);
+coraCall0(co, _3517695_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516833_37);
+coraCall0(co, _3517695_37);
 return;
 }
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -725,49 +726,49 @@ return;
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516834_37 = makeNative(co->gc, 1, clofun134, 0, 1, closureRef(R[0], 0));
-Obj _3518436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518436_37) {
-Obj _3518437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518438_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518437_37);
-if (True == _3518438_37) {
-Obj _3518439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518439_37;
-Obj _3518440_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, more);
+Obj _3517696_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
+Obj _3519302_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519302_37) {
+Obj _3519303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519304_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519303_37);
+if (True == _3519304_37) {
+Obj _3519305_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517697_37 = _3519305_37;
+Obj _3519306_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517697_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3518440_37, makeNative(co->gc, 2, clofun136, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519306_37, makeNative(co->gc, 2, clofun137, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, _3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516834_37);
+coraCall0(co, _3517696_37);
 return;
 }
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -780,39 +781,39 @@ return;
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518433_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3519299_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3518433_37, Nil, Nil, makeNative(co->gc, 3, clofun133, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3519299_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj type = R[1];
 Obj code = R[2];
-saveCont(co, clofun133, 1, R);
+saveCont(co, clofun134, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
 return;
 }
 case 1:
 {
-Obj _3518434_37= co->res;
-Obj _3518435_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518434_37);
-coraReturn(co, _3518435_37);
+Obj _3519300_37= co->res;
+Obj _3519301_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519300_37);
+coraReturn(co, _3519301_37);
 return;
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -820,7 +821,7 @@ Obj type = R[1];
 Obj code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), type, code);
 return;
 } else {
 coraReturn(co, code);
@@ -830,219 +831,219 @@ return;
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516825_37 = R[1];
-Obj _3516826_37 = R[2];
-Obj _3516827_37 = makeNative(co->gc, 2, clofun130, 0, 2, _3516825_37, _3516826_37);
-Obj _3518419_37 = PRIM_ISCONS(_3516825_37);
-if (True == _3518419_37) {
-Obj _3518420_37 = PRIM_CAR(_3516825_37);
-Obj _3518421_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518420_37);
-if (True == _3518421_37) {
-Obj _3518422_37 = PRIM_CDR(_3516825_37);
-Obj _3518423_37 = PRIM_ISCONS(_3518422_37);
-if (True == _3518423_37) {
-Obj _3518424_37 = PRIM_CDR(_3516825_37);
-Obj _3518425_37 = PRIM_CAR(_3518424_37);
-Obj name = _3518425_37;
-Obj _3518426_37 = PRIM_CDR(_3516825_37);
-Obj _3518427_37 = PRIM_CDR(_3518426_37);
-Obj more = _3518427_37;
-R[1] = name;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, _3516826_37);
+Obj _3517429_37 = R[1];
+Obj _3517430_37 = R[2];
+Obj _3517684_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3517429_37, _3517430_37);
+Obj _3519285_37 = PRIM_ISCONS(_3517429_37);
+if (True == _3519285_37) {
+Obj _3519286_37 = PRIM_CAR(_3517429_37);
+Obj _3519287_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519286_37);
+if (True == _3519287_37) {
+Obj _3519288_37 = PRIM_CDR(_3517429_37);
+Obj _3519289_37 = PRIM_ISCONS(_3519288_37);
+if (True == _3519289_37) {
+Obj _3519290_37 = PRIM_CDR(_3517429_37);
+Obj _3519291_37 = PRIM_CAR(_3519290_37);
+Obj _3517693_37 = _3519291_37;
+Obj _3519292_37 = PRIM_CDR(_3517429_37);
+Obj _3519293_37 = PRIM_CDR(_3519292_37);
+Obj _3517694_37 = _3519293_37;
+R[1] = _3517693_37;
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517694_37, _3517430_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516827_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516827_37);
+coraCall0(co, _3517684_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516827_37);
+coraCall0(co, _3517684_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518428_37= co->res;
-Obj name = R[1];
-Obj _3518429_37 = makeCons(co->gc, name, _3518428_37);
-Obj _3518430_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3518429_37);
-coraReturn(co, _3518430_37);
+Obj _3519294_37= co->res;
+Obj _3517693_37 = R[1];
+Obj _3519295_37 = makeCons(co->gc, _3517693_37, _3519294_37);
+Obj _3519296_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3519295_37);
+coraReturn(co, _3519296_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516828_37 = makeNative(co->gc, 2, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518398_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518398_37) {
-Obj _3518399_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518400_37 = PRIM_ISCONS(_3518399_37);
-if (True == _3518400_37) {
-Obj _3518401_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518402_37 = PRIM_CAR(_3518401_37);
-Obj _3518403_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518402_37);
-if (True == _3518403_37) {
-Obj _3518404_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518405_37 = PRIM_CDR(_3518404_37);
-Obj _3518406_37 = PRIM_ISCONS(_3518405_37);
-if (True == _3518406_37) {
-Obj _3518407_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518408_37 = PRIM_CDR(_3518407_37);
-Obj _3518409_37 = PRIM_CAR(_3518408_37);
-Obj pkg = _3518409_37;
-Obj _3518410_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518411_37 = PRIM_CDR(_3518410_37);
-Obj _3518412_37 = PRIM_CDR(_3518411_37);
-Obj _3518413_37 = PRIM_EQ(Nil, _3518412_37);
-if (True == _3518413_37) {
-Obj _3518414_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518414_37;
-Obj _3518415_37 = makeCons(co->gc, pkg, Nil);
-Obj _3518416_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3518415_37);
-R[1] = _3518416_37;
-saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+Obj _3517685_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3519264_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519264_37) {
+Obj _3519265_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519266_37 = PRIM_ISCONS(_3519265_37);
+if (True == _3519266_37) {
+Obj _3519267_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519268_37 = PRIM_CAR(_3519267_37);
+Obj _3519269_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519268_37);
+if (True == _3519269_37) {
+Obj _3519270_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519271_37 = PRIM_CDR(_3519270_37);
+Obj _3519272_37 = PRIM_ISCONS(_3519271_37);
+if (True == _3519272_37) {
+Obj _3519273_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519274_37 = PRIM_CDR(_3519273_37);
+Obj _3519275_37 = PRIM_CAR(_3519274_37);
+Obj _3517691_37 = _3519275_37;
+Obj _3519276_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519277_37 = PRIM_CDR(_3519276_37);
+Obj _3519278_37 = PRIM_CDR(_3519277_37);
+Obj _3519279_37 = PRIM_EQ(Nil, _3519278_37);
+if (True == _3519279_37) {
+Obj _3519280_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517692_37 = _3519280_37;
+Obj _3519281_37 = makeCons(co->gc, _3517691_37, Nil);
+Obj _3519282_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3519281_37);
+R[1] = _3519282_37;
+saveCont(co, clofun131, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517692_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516828_37);
+coraCall0(co, _3517685_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516828_37);
+coraCall0(co, _3517685_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516828_37);
+coraCall0(co, _3517685_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516828_37);
+coraCall0(co, _3517685_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516828_37);
+coraCall0(co, _3517685_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518417_37= co->res;
-Obj _3518416_37 = R[1];
-Obj _3518418_37 = makeCons(co->gc, _3518416_37, _3518417_37);
-coraReturn(co, _3518418_37);
+Obj _3519283_37= co->res;
+Obj _3519282_37 = R[1];
+Obj _3519284_37 = makeCons(co->gc, _3519282_37, _3519283_37);
+coraReturn(co, _3519284_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516829_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518386_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518386_37) {
-Obj _3518387_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518388_37 = PRIM_ISCONS(_3518387_37);
-if (True == _3518388_37) {
-Obj _3518389_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518390_37 = PRIM_CAR(_3518389_37);
-Obj _3518391_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518390_37);
-if (True == _3518391_37) {
-Obj _3518392_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518393_37 = PRIM_CDR(_3518392_37);
-Obj symbols = _3518393_37;
-Obj _3518394_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518394_37;
-Obj _3518395_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, symbols);
-R[1] = _3518395_37;
-saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+Obj _3517686_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3519252_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519252_37) {
+Obj _3519253_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519254_37 = PRIM_ISCONS(_3519253_37);
+if (True == _3519254_37) {
+Obj _3519255_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519256_37 = PRIM_CAR(_3519255_37);
+Obj _3519257_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519256_37);
+if (True == _3519257_37) {
+Obj _3519258_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519259_37 = PRIM_CDR(_3519258_37);
+Obj _3517689_37 = _3519259_37;
+Obj _3519260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517690_37 = _3519260_37;
+Obj _3519261_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3517689_37);
+R[1] = _3519261_37;
+saveCont(co, clofun130, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517690_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516829_37);
+coraCall0(co, _3517686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516829_37);
+coraCall0(co, _3517686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516829_37);
+coraCall0(co, _3517686_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518396_37= co->res;
-Obj _3518395_37 = R[1];
-Obj _3518397_37 = makeCons(co->gc, _3518395_37, _3518396_37);
-coraReturn(co, _3518397_37);
+Obj _3519262_37= co->res;
+Obj _3519261_37 = R[1];
+Obj _3519263_37 = makeCons(co->gc, _3519261_37, _3519262_37);
+coraReturn(co, _3519263_37);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516830_37 = makeNative(co->gc, 1, clofun127, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3518380_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518380_37) {
-Obj _3518381_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518382_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518381_37);
-if (True == _3518382_37) {
-Obj _3518383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518383_37;
-saveCont(co, clofun128, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), more, closureRef(R[0], 1));
+Obj _3517687_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj _3519246_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519246_37) {
+Obj _3519247_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519248_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519247_37);
+if (True == _3519248_37) {
+Obj _3519249_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517688_37 = _3519249_37;
+saveCont(co, clofun129, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517688_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516830_37);
+coraCall0(co, _3517687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516830_37);
+coraCall0(co, _3517687_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518384_37= co->res;
-Obj _3518385_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3518384_37);
-coraReturn(co, _3518385_37);
+Obj _3519250_37= co->res;
+Obj _3519251_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519250_37);
+coraReturn(co, _3519251_37);
 return;
 }
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1053,147 +1054,147 @@ return;
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516817_37 = R[1];
-Obj _3516818_37 = R[2];
-Obj _3516819_37 = R[3];
-Obj _3516820_37 = R[4];
-Obj _3518341_37 = PRIM_EQ(Nil, _3516817_37);
-if (True == _3518341_37) {
-R[1] = _3516819_37;
-R[2] = _3516820_37;
-saveCont(co, clofun126, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516818_37);
+Obj _3517421_37 = R[1];
+Obj _3517422_37 = R[2];
+Obj _3517423_37 = R[3];
+Obj _3517424_37 = R[4];
+Obj _3519207_37 = PRIM_EQ(Nil, _3517421_37);
+if (True == _3519207_37) {
+R[1] = _3517423_37;
+R[2] = _3517424_37;
+saveCont(co, clofun127, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517422_37);
 return;
 } else {
-Obj _3516822_37 = makeNative(co->gc, 1, clofun125, 0, 4, _3516817_37, _3516818_37, _3516819_37, _3516820_37);
-Obj _3518368_37 = PRIM_ISCONS(_3516817_37);
-if (True == _3518368_37) {
-Obj _3518369_37 = PRIM_CAR(_3516817_37);
-Obj _3518370_37 = PRIM_ISCONS(_3518369_37);
-if (True == _3518370_37) {
-Obj _3518371_37 = PRIM_CAR(_3516817_37);
-Obj _3518372_37 = PRIM_CAR(_3518371_37);
-Obj _3518373_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3518372_37);
-if (True == _3518373_37) {
-Obj _3518374_37 = PRIM_CAR(_3516817_37);
-Obj _3518375_37 = PRIM_CDR(_3518374_37);
-Obj exp = _3518375_37;
-Obj _3518376_37 = PRIM_CDR(_3516817_37);
-Obj more = _3518376_37;
-Obj _3518377_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, exp);
-Obj _3518378_37 = makeCons(co->gc, _3518377_37, _3516818_37);
+Obj _3517676_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3517421_37, _3517422_37, _3517423_37, _3517424_37);
+Obj _3519234_37 = PRIM_ISCONS(_3517421_37);
+if (True == _3519234_37) {
+Obj _3519235_37 = PRIM_CAR(_3517421_37);
+Obj _3519236_37 = PRIM_ISCONS(_3519235_37);
+if (True == _3519236_37) {
+Obj _3519237_37 = PRIM_CAR(_3517421_37);
+Obj _3519238_37 = PRIM_CAR(_3519237_37);
+Obj _3519239_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3519238_37);
+if (True == _3519239_37) {
+Obj _3519240_37 = PRIM_CAR(_3517421_37);
+Obj _3519241_37 = PRIM_CDR(_3519240_37);
+Obj _3517682_37 = _3519241_37;
+Obj _3519242_37 = PRIM_CDR(_3517421_37);
+Obj _3517683_37 = _3519242_37;
+Obj _3519243_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517682_37);
+Obj _3519244_37 = makeCons(co->gc, _3519243_37, _3517422_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518378_37, _3516819_37, _3516820_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517683_37, _3519244_37, _3517423_37, _3517424_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516822_37);
+coraCall0(co, _3517676_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518343_37= co->res;
-Obj _3516820_37 = R[1];
-Obj _3518342_37 = R[2];
+Obj _3519209_37= co->res;
+Obj _3517424_37 = R[1];
+Obj _3519208_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3516820_37, _3518342_37, _3518343_37);
+coraCall2(co, _3517424_37, _3519208_37, _3519209_37);
 return;
 }
 case 2:
 {
-Obj _3518342_37= co->res;
-Obj _3516819_37 = R[1];
-Obj _3516820_37 = R[2];
-R[1] = _3516820_37;
-R[2] = _3518342_37;
-saveCont(co, clofun126, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516819_37);
+Obj _3519208_37= co->res;
+Obj _3517423_37 = R[1];
+Obj _3517424_37 = R[2];
+R[1] = _3517424_37;
+R[2] = _3519208_37;
+saveCont(co, clofun127, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517423_37);
 return;
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516823_37 = makeNative(co->gc, 1, clofun124, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3518357_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518357_37) {
-Obj _3518358_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518359_37 = PRIM_ISCONS(_3518358_37);
-if (True == _3518359_37) {
-Obj _3518360_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518361_37 = PRIM_CAR(_3518360_37);
-Obj _3518362_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3518361_37);
-if (True == _3518362_37) {
-Obj _3518363_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518364_37 = PRIM_CDR(_3518363_37);
-Obj exp = _3518364_37;
-Obj _3518365_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518365_37;
-Obj _3518366_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, exp);
-Obj _3518367_37 = makeCons(co->gc, _3518366_37, closureRef(R[0], 1));
+Obj _3517677_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj _3519223_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519223_37) {
+Obj _3519224_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519225_37 = PRIM_ISCONS(_3519224_37);
+if (True == _3519225_37) {
+Obj _3519226_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519227_37 = PRIM_CAR(_3519226_37);
+Obj _3519228_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3519227_37);
+if (True == _3519228_37) {
+Obj _3519229_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519230_37 = PRIM_CDR(_3519229_37);
+Obj _3517680_37 = _3519230_37;
+Obj _3519231_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517681_37 = _3519231_37;
+Obj _3519232_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, _3517680_37);
+Obj _3519233_37 = makeCons(co->gc, _3519232_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518367_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517681_37, _3519233_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516823_37);
+coraCall0(co, _3517677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516823_37);
+coraCall0(co, _3517677_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516823_37);
+coraCall0(co, _3517677_37);
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518344_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518344_37) {
-Obj _3518345_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj exp = _3518345_37;
-Obj _3518346_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj more = _3518346_37;
-Obj _3518347_37 = makeCons(co->gc, exp, Nil);
-Obj _3518348_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3518347_37);
-Obj _3518349_37 = makeCons(co->gc, _3518348_37, Nil);
-Obj _3518350_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3518349_37);
-Obj _3518351_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3518352_37 = makeCons(co->gc, _3518351_37, Nil);
-Obj _3518353_37 = makeCons(co->gc, _3518350_37, _3518352_37);
-Obj _3518354_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3518353_37);
-Obj _3518355_37 = makeCons(co->gc, _3518354_37, closureRef(R[0], 1));
-Obj _3518356_37 = makeCons(co->gc, exp, closureRef(R[0], 2));
+Obj _3519210_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519210_37) {
+Obj _3519211_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517678_37 = _3519211_37;
+Obj _3519212_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517679_37 = _3519212_37;
+Obj _3519213_37 = makeCons(co->gc, _3517678_37, Nil);
+Obj _3519214_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3519213_37);
+Obj _3519215_37 = makeCons(co->gc, _3519214_37, Nil);
+Obj _3519216_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3519215_37);
+Obj _3519217_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj _3519218_37 = makeCons(co->gc, _3519217_37, Nil);
+Obj _3519219_37 = makeCons(co->gc, _3519216_37, _3519218_37);
+Obj _3519220_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3519219_37);
+Obj _3519221_37 = makeCons(co->gc, _3519220_37, closureRef(R[0], 1));
+Obj _3519222_37 = makeCons(co->gc, _3517678_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), more, _3518355_37, _3518356_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517679_37, _3519221_37, _3519222_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1204,187 +1205,187 @@ return;
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516811_37 = R[1];
-Obj _3516812_37 = makeNative(co->gc, 1, clofun122, 0, 1, _3516811_37);
-Obj _3518331_37 = PRIM_ISCONS(_3516811_37);
-if (True == _3518331_37) {
-Obj _3518332_37 = PRIM_CAR(_3516811_37);
-Obj _3518333_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3518332_37);
-if (True == _3518333_37) {
-Obj _3518334_37 = PRIM_CDR(_3516811_37);
-Obj _3518335_37 = PRIM_ISCONS(_3518334_37);
-if (True == _3518335_37) {
-Obj _3518336_37 = PRIM_CDR(_3516811_37);
-Obj _3518337_37 = PRIM_CAR(_3518336_37);
-Obj _3518338_37 = PRIM_CDR(_3516811_37);
-Obj _3518339_37 = PRIM_CDR(_3518338_37);
-Obj remain = _3518339_37;
+Obj _3517415_37 = R[1];
+Obj _3517667_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3517415_37);
+Obj _3519197_37 = PRIM_ISCONS(_3517415_37);
+if (True == _3519197_37) {
+Obj _3519198_37 = PRIM_CAR(_3517415_37);
+Obj _3519199_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519198_37);
+if (True == _3519199_37) {
+Obj _3519200_37 = PRIM_CDR(_3517415_37);
+Obj _3519201_37 = PRIM_ISCONS(_3519200_37);
+if (True == _3519201_37) {
+Obj _3519202_37 = PRIM_CDR(_3517415_37);
+Obj _3519203_37 = PRIM_CAR(_3519202_37);
+Obj _3519204_37 = PRIM_CDR(_3517415_37);
+Obj _3519205_37 = PRIM_CDR(_3519204_37);
+Obj _3517675_37 = _3519205_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517675_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516812_37);
+coraCall0(co, _3517667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516812_37);
+coraCall0(co, _3517667_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516812_37);
+coraCall0(co, _3517667_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516813_37 = makeNative(co->gc, 1, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3518327_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518327_37) {
-Obj _3518328_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518329_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3518328_37);
-if (True == _3518329_37) {
-Obj _3518330_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518330_37;
+Obj _3517668_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
+Obj _3519193_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519193_37) {
+Obj _3519194_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519195_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519194_37);
+if (True == _3519195_37) {
+Obj _3519196_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517674_37 = _3519196_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517674_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516813_37);
+coraCall0(co, _3517668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516813_37);
+coraCall0(co, _3517668_37);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516814_37 = makeNative(co->gc, 2, clofun120, 0, 1, closureRef(R[0], 0));
-Obj _3518318_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518318_37) {
-Obj _3518319_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518320_37 = PRIM_ISCONS(_3518319_37);
-if (True == _3518320_37) {
-Obj _3518321_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518322_37 = PRIM_CAR(_3518321_37);
-Obj _3518323_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3518322_37);
-if (True == _3518323_37) {
-Obj _3518324_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518325_37 = PRIM_CDR(_3518324_37);
-Obj _3518326_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518326_37;
+Obj _3517669_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
+Obj _3519184_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519184_37) {
+Obj _3519185_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519186_37 = PRIM_ISCONS(_3519185_37);
+if (True == _3519186_37) {
+Obj _3519187_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519188_37 = PRIM_CAR(_3519187_37);
+Obj _3519189_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519188_37);
+if (True == _3519189_37) {
+Obj _3519190_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519191_37 = PRIM_CDR(_3519190_37);
+Obj _3519192_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517673_37 = _3519192_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517673_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516814_37);
+coraCall0(co, _3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516814_37);
+coraCall0(co, _3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516814_37);
+coraCall0(co, _3517669_37);
 return;
 }
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516815_37 = makeNative(co->gc, 1, clofun119, 0, 0);
-Obj _3518300_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518300_37) {
-Obj _3518301_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518302_37 = PRIM_ISCONS(_3518301_37);
-if (True == _3518302_37) {
-Obj _3518303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_CAR(_3518303_37);
-Obj _3518305_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3518304_37);
-if (True == _3518305_37) {
-Obj _3518306_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518307_37 = PRIM_CDR(_3518306_37);
-Obj _3518308_37 = PRIM_ISCONS(_3518307_37);
-if (True == _3518308_37) {
-Obj _3518309_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518310_37 = PRIM_CDR(_3518309_37);
-Obj _3518311_37 = PRIM_CAR(_3518310_37);
-Obj pkg = _3518311_37;
-Obj _3518312_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518313_37 = PRIM_CDR(_3518312_37);
-Obj _3518314_37 = PRIM_CDR(_3518313_37);
-Obj _3518315_37 = PRIM_EQ(Nil, _3518314_37);
-if (True == _3518315_37) {
-Obj _3518316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj remain = _3518316_37;
-R[1] = remain;
-saveCont(co, clofun120, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), pkg);
+Obj _3517670_37 = makeNative(co->gc, 1, clofun120, 0, 0);
+Obj _3519166_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3519166_37) {
+Obj _3519167_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519168_37 = PRIM_ISCONS(_3519167_37);
+if (True == _3519168_37) {
+Obj _3519169_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519170_37 = PRIM_CAR(_3519169_37);
+Obj _3519171_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519170_37);
+if (True == _3519171_37) {
+Obj _3519172_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519173_37 = PRIM_CDR(_3519172_37);
+Obj _3519174_37 = PRIM_ISCONS(_3519173_37);
+if (True == _3519174_37) {
+Obj _3519175_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519176_37 = PRIM_CDR(_3519175_37);
+Obj _3519177_37 = PRIM_CAR(_3519176_37);
+Obj _3517671_37 = _3519177_37;
+Obj _3519178_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3519179_37 = PRIM_CDR(_3519178_37);
+Obj _3519180_37 = PRIM_CDR(_3519179_37);
+Obj _3519181_37 = PRIM_EQ(Nil, _3519180_37);
+if (True == _3519181_37) {
+Obj _3519182_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517672_37 = _3519182_37;
+R[1] = _3517672_37;
+saveCont(co, clofun121, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3517671_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516815_37);
+coraCall0(co, _3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516815_37);
+coraCall0(co, _3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516815_37);
+coraCall0(co, _3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516815_37);
+coraCall0(co, _3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516815_37);
+coraCall0(co, _3517670_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518317_37= co->res;
-Obj remain = R[1];
+Obj _3519183_37= co->res;
+Obj _3517672_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), remain);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517672_37);
 return;
 }
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1394,7 +1395,7 @@ return;
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1404,118 +1405,118 @@ Obj globals = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 8, R);
+saveCont(co, clofun119, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3518298_37= co->res;
+Obj _3519164_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 2, to, globals), bc);
 return;
 }
 case 2:
 {
-Obj _3518297_37= co->res;
-Obj _3518295_37 = R[1];
+Obj _3519163_37= co->res;
+Obj _3519161_37 = R[1];
 Obj to = R[2];
 Obj globals = R[3];
 Obj bc = R[4];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3518295_37, _3518297_37);
+saveCont(co, clofun119, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3519161_37, _3519163_37);
 return;
 }
 case 3:
 {
-Obj _3518295_37= co->res;
+Obj _3519161_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
-Obj _3518296_37 = PRIM_CAR(bc);
-R[1] = _3518295_37;
+Obj _3519162_37 = PRIM_CAR(bc);
+R[1] = _3519161_37;
 R[2] = to;
 R[3] = globals;
 R[4] = bc;
-saveCont(co, clofun118, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3518296_37);
+saveCont(co, clofun119, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3519162_37);
 return;
 }
 case 4:
 {
-Obj _3518294_37= co->res;
+Obj _3519160_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 3, R);
+saveCont(co, clofun119, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
 return;
 }
 case 5:
 {
-Obj _3518293_37= co->res;
+Obj _3519159_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 4, R);
+saveCont(co, clofun119, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj _3518290_37= co->res;
+Obj _3519156_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun116, 1, 1, to), bc);
+saveCont(co, clofun119, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
 return;
 }
 case 7:
 {
-Obj _3518289_37= co->res;
+Obj _3519155_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 6, R);
+saveCont(co, clofun119, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 8:
 {
-Obj _3518288_37= co->res;
+Obj _3519154_37= co->res;
 Obj to = R[1];
 Obj globals = R[2];
 Obj bc = R[3];
 R[1] = to;
 R[2] = globals;
 R[3] = bc;
-saveCont(co, clofun118, 7, R);
+saveCont(co, clofun119, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1527,19 +1528,19 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj group = R[1];
-Obj _3518291_37 = PRIM_CAR(group);
-saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3518291_37);
+Obj _3519157_37 = PRIM_CAR(group);
+saveCont(co, clofun117, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3519157_37);
 return;
 }
 case 1:
 {
-Obj _3518292_37= co->res;
+Obj _3519158_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1547,7 +1548,7 @@ return;
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1559,13 +1560,13 @@ R[1] = globals;
 R[2] = lam;
 R[3] = label;
 R[4] = to;
-saveCont(co, clofun115, 15, R);
+saveCont(co, clofun116, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3518286_37= co->res;
+Obj _3519152_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1573,97 +1574,97 @@ return;
 }
 case 2:
 {
-Obj _3518285_37= co->res;
+Obj _3519151_37= co->res;
 Obj to = R[1];
 R[1] = to;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3518284_37= co->res;
+Obj _3519150_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = to;
-saveCont(co, clofun115, 2, R);
+saveCont(co, clofun116, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
 return;
 }
 case 4:
 {
-Obj _3518283_37= co->res;
+Obj _3519149_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 3, R);
+saveCont(co, clofun116, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj _3518282_37= co->res;
+Obj _3519148_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun116, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj _3518281_37= co->res;
+Obj _3519147_37= co->res;
 Obj label = R[1];
 Obj to = R[2];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518281_37);
+saveCont(co, clofun116, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3519147_37);
 return;
 }
 case 7:
 {
-Obj _3518280_37= co->res;
+Obj _3519146_37= co->res;
 Obj lam = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = label;
 R[2] = to;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun116, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), lam);
 return;
 }
 case 8:
 {
-Obj _3518279_37= co->res;
+Obj _3519145_37= co->res;
 Obj lam = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = lam;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 7, R);
+saveCont(co, clofun116, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj _3518278_37= co->res;
+Obj _3519144_37= co->res;
 Obj lam = R[1];
 Obj label = R[2];
 Obj to = R[3];
 R[1] = lam;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 8, R);
+saveCont(co, clofun116, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj _3518270_37= co->res;
+Obj _3519136_37= co->res;
 Obj globals = R[1];
 Obj lam = R[2];
 Obj label = R[3];
@@ -1671,13 +1672,13 @@ Obj to = R[4];
 R[1] = lam;
 R[2] = label;
 R[3] = to;
-saveCont(co, clofun115, 9, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 1, to), MAKE_NUMBER(0), globals);
+saveCont(co, clofun116, 9, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
 return;
 }
 case 11:
 {
-Obj _3518269_37= co->res;
+Obj _3519135_37= co->res;
 Obj globals = R[1];
 Obj lam = R[2];
 Obj label = R[3];
@@ -1686,13 +1687,13 @@ R[1] = globals;
 R[2] = lam;
 R[3] = label;
 R[4] = to;
-saveCont(co, clofun115, 10, R);
+saveCont(co, clofun116, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3518268_37= co->res;
+Obj _3519134_37= co->res;
 Obj globals = R[1];
 Obj lam = R[2];
 Obj label = R[3];
@@ -1701,13 +1702,13 @@ R[1] = globals;
 R[2] = lam;
 R[3] = label;
 R[4] = to;
-saveCont(co, clofun115, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3518268_37);
+saveCont(co, clofun116, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3519134_37);
 return;
 }
 case 13:
 {
-Obj _3518267_37= co->res;
+Obj _3519133_37= co->res;
 Obj globals = R[1];
 Obj lam = R[2];
 Obj label = R[3];
@@ -1716,13 +1717,13 @@ R[1] = globals;
 R[2] = lam;
 R[3] = label;
 R[4] = to;
-saveCont(co, clofun115, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), globals);
+saveCont(co, clofun116, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), globals);
 return;
 }
 case 14:
 {
-Obj _3518266_37= co->res;
+Obj _3519132_37= co->res;
 Obj globals = R[1];
 Obj lam = R[2];
 Obj label = R[3];
@@ -1731,13 +1732,13 @@ R[1] = globals;
 R[2] = lam;
 R[3] = label;
 R[4] = to;
-saveCont(co, clofun115, 13, R);
+saveCont(co, clofun116, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 15:
 {
-Obj _3518265_37= co->res;
+Obj _3519131_37= co->res;
 Obj globals = R[1];
 Obj lam = R[2];
 Obj label = R[3];
@@ -1746,14 +1747,14 @@ R[1] = globals;
 R[2] = lam;
 R[3] = label;
 R[4] = to;
-saveCont(co, clofun115, 14, R);
+saveCont(co, clofun116, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1761,90 +1762,90 @@ Obj acc = R[1];
 Obj sym = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 6, R);
+saveCont(co, clofun115, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3518276_37= co->res;
+Obj _3519142_37= co->res;
 Obj acc = R[1];
-Obj _3518277_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518277_37);
+Obj _3519143_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3519143_37);
 return;
 }
 case 2:
 {
-Obj _3518275_37= co->res;
+Obj _3519141_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3518274_37= co->res;
+Obj _3519140_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun114, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3518274_37);
+saveCont(co, clofun115, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3519140_37);
 return;
 }
 case 4:
 {
-Obj _3518273_37= co->res;
+Obj _3519139_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun114, 3, R);
+saveCont(co, clofun115, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
 return;
 }
 case 5:
 {
-Obj _3518272_37= co->res;
+Obj _3519138_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun115, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 6:
 {
-Obj _3518271_37= co->res;
+Obj _3519137_37= co->res;
 Obj sym = R[1];
 Obj acc = R[2];
 R[1] = sym;
 R[2] = acc;
-saveCont(co, clofun114, 5, R);
+saveCont(co, clofun115, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj to = R[1];
 Obj group = R[2];
 Obj globals = R[3];
-Obj _3518243_37 = PRIM_CAR(group);
-Obj label = _3518243_37;
+Obj _3519109_37 = PRIM_CAR(group);
+Obj _3517663_37 = _3519109_37;
 R[1] = globals;
-R[2] = label;
+R[2] = _3517663_37;
 R[3] = to;
-saveCont(co, clofun113, 13, R);
+saveCont(co, clofun114, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
 return;
 }
 case 1:
 {
-Obj _3518263_37= co->res;
+Obj _3519129_37= co->res;
 Obj to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
@@ -1852,205 +1853,205 @@ return;
 }
 case 2:
 {
-Obj _3518262_37= co->res;
+Obj _3519128_37= co->res;
 Obj to = R[1];
 R[1] = to;
-saveCont(co, clofun113, 1, R);
+saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518261_37= co->res;
+Obj _3519127_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517663_37 = R[2];
+Obj _3517664_37 = R[3];
 Obj to = R[4];
 R[1] = to;
-saveCont(co, clofun113, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun112, 2, 4, globals, label, lam, to), MAKE_NUMBER(1), _3518261_37);
+saveCont(co, clofun114, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, globals, _3517663_37, _3517664_37, to), MAKE_NUMBER(1), _3519127_37);
 return;
 }
 case 4:
 {
-Obj _3518253_37= co->res;
+Obj _3519119_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517663_37 = R[2];
+Obj _3517664_37 = R[3];
 Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517663_37;
+R[3] = _3517664_37;
 R[4] = to;
-saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+saveCont(co, clofun114, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), _3517664_37);
 return;
 }
 case 5:
 {
-Obj _3518252_37= co->res;
+Obj _3519118_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517663_37 = R[2];
+Obj _3517664_37 = R[3];
 Obj to = R[4];
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517663_37;
+R[3] = _3517664_37;
 R[4] = to;
-saveCont(co, clofun113, 4, R);
+saveCont(co, clofun114, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3518251_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519117_37= co->res;
+Obj _3517665_37 = R[1];
+Obj _3517666_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517663_37 = R[4];
+Obj _3517664_37 = R[5];
 Obj to = R[6];
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517663_37;
+R[3] = _3517664_37;
 R[4] = to;
-saveCont(co, clofun113, 5, R);
-Obj __args[5] = {globals, label, params, to, first_45stmt};
+saveCont(co, clofun114, 5, R);
+Obj __args[5] = {globals, _3517663_37, _3517665_37, to, _3517666_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518250_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519116_37= co->res;
+Obj _3517665_37 = R[1];
+Obj _3517666_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517663_37 = R[4];
+Obj _3517664_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517665_37;
+R[2] = _3517666_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517663_37;
+R[5] = _3517664_37;
 R[6] = to;
-saveCont(co, clofun113, 6, R);
-Obj __args[5] = {globals, label, Nil, to, params};
+saveCont(co, clofun114, 6, R);
+Obj __args[5] = {globals, _3517663_37, Nil, to, _3517665_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3518249_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519115_37= co->res;
+Obj _3517665_37 = R[1];
+Obj _3517666_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517663_37 = R[4];
+Obj _3517664_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517665_37;
+R[2] = _3517666_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517663_37;
+R[5] = _3517664_37;
 R[6] = to;
-saveCont(co, clofun113, 7, R);
+saveCont(co, clofun114, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3518248_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519114_37= co->res;
+Obj _3517665_37 = R[1];
+Obj _3517666_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517663_37 = R[4];
+Obj _3517664_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517665_37;
+R[2] = _3517666_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517663_37;
+R[5] = _3517664_37;
 R[6] = to;
-saveCont(co, clofun113, 8, R);
+saveCont(co, clofun114, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3518247_37= co->res;
-Obj params = R[1];
-Obj first_45stmt = R[2];
+Obj _3519113_37= co->res;
+Obj _3517665_37 = R[1];
+Obj _3517666_37 = R[2];
 Obj globals = R[3];
-Obj label = R[4];
-Obj lam = R[5];
+Obj _3517663_37 = R[4];
+Obj _3517664_37 = R[5];
 Obj to = R[6];
-R[1] = params;
-R[2] = first_45stmt;
+R[1] = _3517665_37;
+R[2] = _3517666_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517663_37;
+R[5] = _3517664_37;
 R[6] = to;
-saveCont(co, clofun113, 9, R);
+saveCont(co, clofun114, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3518246_37= co->res;
-Obj params = R[1];
+Obj _3519112_37= co->res;
+Obj _3517665_37 = R[1];
 Obj globals = R[2];
-Obj label = R[3];
-Obj lam = R[4];
+Obj _3517663_37 = R[3];
+Obj _3517664_37 = R[4];
 Obj to = R[5];
-Obj first_45stmt = _3518246_37;
-R[1] = params;
-R[2] = first_45stmt;
+Obj _3517666_37 = _3519112_37;
+R[1] = _3517665_37;
+R[2] = _3517666_37;
 R[3] = globals;
-R[4] = label;
-R[5] = lam;
+R[4] = _3517663_37;
+R[5] = _3517664_37;
 R[6] = to;
-saveCont(co, clofun113, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, label);
+saveCont(co, clofun114, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, _3517663_37);
 return;
 }
 case 12:
 {
-Obj _3518245_37= co->res;
+Obj _3519111_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
-Obj lam = R[3];
+Obj _3517663_37 = R[2];
+Obj _3517664_37 = R[3];
 Obj to = R[4];
-Obj params = _3518245_37;
-R[1] = params;
+Obj _3517665_37 = _3519111_37;
+R[1] = _3517665_37;
 R[2] = globals;
-R[3] = label;
-R[4] = lam;
+R[3] = _3517663_37;
+R[4] = _3517664_37;
 R[5] = to;
-saveCont(co, clofun113, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), lam);
+saveCont(co, clofun114, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517664_37);
 return;
 }
 case 13:
 {
-Obj _3518244_37= co->res;
+Obj _3519110_37= co->res;
 Obj globals = R[1];
-Obj label = R[2];
+Obj _3517663_37 = R[2];
 Obj to = R[3];
-Obj lam = _3518244_37;
+Obj _3517664_37 = _3519110_37;
 R[1] = globals;
-R[2] = label;
-R[3] = lam;
+R[2] = _3517663_37;
+R[3] = _3517664_37;
 R[4] = to;
-saveCont(co, clofun113, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+saveCont(co, clofun114, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517664_37);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2058,95 +2059,95 @@ Obj acc = R[1];
 Obj cont = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 6, R);
+saveCont(co, clofun113, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3518259_37= co->res;
+Obj _3519125_37= co->res;
 Obj acc = R[1];
-Obj _3518260_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518260_37);
+Obj _3519126_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3519126_37);
 return;
 }
 case 2:
 {
-Obj _3518258_37= co->res;
+Obj _3519124_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun112, 1, R);
+saveCont(co, clofun113, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3518257_37= co->res;
+Obj _3519123_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun112, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3518257_37, closureRef(R[0], 3), cont};
+saveCont(co, clofun113, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3519123_37, closureRef(R[0], 3), cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518256_37= co->res;
+Obj _3519122_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 3, R);
+saveCont(co, clofun113, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3518255_37= co->res;
+Obj _3519121_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 4, R);
+saveCont(co, clofun113, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3518254_37= co->res;
+Obj _3519120_37= co->res;
 Obj cont = R[1];
 Obj acc = R[2];
 R[1] = cont;
 R[2] = acc;
-saveCont(co, clofun112, 5, R);
+saveCont(co, clofun113, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516807_37 = R[1];
-Obj _3516808_37 = R[2];
-Obj _3518237_37 = PRIM_EQ(Nil, _3516808_37);
-if (True == _3518237_37) {
+Obj _3517411_37 = R[1];
+Obj _3517412_37 = R[2];
+Obj _3519103_37 = PRIM_EQ(Nil, _3517412_37);
+if (True == _3519103_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518238_37 = PRIM_ISCONS(_3516808_37);
-if (True == _3518238_37) {
-Obj _3518239_37 = PRIM_CAR(_3516808_37);
-Obj x = _3518239_37;
-Obj _3518240_37 = PRIM_CDR(_3516808_37);
-Obj y = _3518240_37;
-R[1] = _3516807_37;
-R[2] = y;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, _3516807_37, x);
+Obj _3519104_37 = PRIM_ISCONS(_3517412_37);
+if (True == _3519104_37) {
+Obj _3519105_37 = PRIM_CAR(_3517412_37);
+Obj _3517661_37 = _3519105_37;
+Obj _3519106_37 = PRIM_CDR(_3517412_37);
+Obj _3517662_37 = _3519106_37;
+R[1] = _3517411_37;
+R[2] = _3517662_37;
+saveCont(co, clofun112, 1, R);
+coraCall1(co, _3517411_37, _3517661_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2157,119 +2158,119 @@ return;
 }
 case 1:
 {
-Obj _3518241_37= co->res;
-Obj _3516807_37 = R[1];
-Obj y = R[2];
+Obj _3519107_37= co->res;
+Obj _3517411_37 = R[1];
+Obj _3517662_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3516807_37, y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3517411_37, _3517662_37);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj globals = R[1];
 Obj exp = R[2];
 R[1] = exp;
-saveCont(co, clofun110, 5, R);
+saveCont(co, clofun111, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
 return;
 }
 case 1:
 {
-Obj _3518235_37= co->res;
+Obj _3519101_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3518235_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3519101_37);
 return;
 }
 case 2:
 {
-Obj _3518234_37= co->res;
-saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3518234_37);
+Obj _3519100_37= co->res;
+saveCont(co, clofun111, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3519100_37);
 return;
 }
 case 3:
 {
-Obj _3518233_37= co->res;
-saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3518233_37);
+Obj _3519099_37= co->res;
+saveCont(co, clofun111, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3519099_37);
 return;
 }
 case 4:
 {
-Obj _3518232_37= co->res;
-saveCont(co, clofun110, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3518232_37);
+Obj _3519098_37= co->res;
+saveCont(co, clofun111, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3519098_37);
 return;
 }
 case 5:
 {
-Obj _3518231_37= co->res;
+Obj _3519097_37= co->res;
 Obj exp = R[1];
-saveCont(co, clofun110, 4, R);
-coraCall1(co, _3518231_37, exp);
+saveCont(co, clofun111, 4, R);
+coraCall1(co, _3519097_37, exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun109, 2, R);
+saveCont(co, clofun110, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
 return;
 }
 case 1:
 {
-Obj _3518229_37= co->res;
-Obj obj = R[1];
-Obj fns = _3518229_37;
+Obj _3519095_37= co->res;
+Obj _3517659_37 = R[1];
+Obj _3517660_37 = _3519095_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), obj, fns);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3517659_37, _3517660_37);
 return;
 }
 case 2:
 {
-Obj _3518228_37= co->res;
+Obj _3519094_37= co->res;
 Obj exp = R[1];
-Obj obj = _3518228_37;
-R[1] = obj;
-saveCont(co, clofun109, 1, R);
+Obj _3517659_37 = _3519094_37;
+R[1] = _3517659_37;
+saveCont(co, clofun110, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
 return;
 }
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516803_37 = R[1];
-Obj _3516804_37 = R[2];
-Obj _3518221_37 = PRIM_EQ(Nil, _3516804_37);
-if (True == _3518221_37) {
-coraReturn(co, _3516803_37);
+Obj _3517407_37 = R[1];
+Obj _3517408_37 = R[2];
+Obj _3519087_37 = PRIM_EQ(Nil, _3517408_37);
+if (True == _3519087_37) {
+coraReturn(co, _3517407_37);
 return;
 } else {
-Obj _3518222_37 = PRIM_ISCONS(_3516804_37);
-if (True == _3518222_37) {
-Obj _3518223_37 = PRIM_CAR(_3516804_37);
-Obj hd = _3518223_37;
-Obj _3518224_37 = PRIM_CDR(_3516804_37);
-Obj more = _3518224_37;
-Obj _3518225_37 = makeCons(co->gc, _3516803_37, Nil);
-Obj _3518226_37 = makeCons(co->gc, hd, _3518225_37);
+Obj _3519088_37 = PRIM_ISCONS(_3517408_37);
+if (True == _3519088_37) {
+Obj _3519089_37 = PRIM_CAR(_3517408_37);
+Obj _3517657_37 = _3519089_37;
+Obj _3519090_37 = PRIM_CDR(_3517408_37);
+Obj _3517658_37 = _3519090_37;
+Obj _3519091_37 = makeCons(co->gc, _3517407_37, Nil);
+Obj _3519092_37 = makeCons(co->gc, _3517657_37, _3519091_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3518226_37, more);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3519092_37, _3517658_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2281,80 +2282,80 @@ return;
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj exp = R[1];
 R[1] = exp;
-saveCont(co, clofun107, 6, R);
+saveCont(co, clofun108, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3518219_37= co->res;
-Obj v = R[1];
+Obj _3519085_37= co->res;
+Obj _3517654_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517654_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3518218_37= co->res;
-Obj v = R[1];
-Obj e2 = _3518218_37;
-R[1] = v;
-saveCont(co, clofun107, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v, e2);
+Obj _3519084_37= co->res;
+Obj _3517654_37 = R[1];
+Obj _3517656_37 = _3519084_37;
+R[1] = _3517654_37;
+saveCont(co, clofun108, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517654_37, _3517656_37);
 return;
 }
 case 3:
 {
-Obj _3518217_37= co->res;
-Obj v = R[1];
-Obj e1 = _3518217_37;
-R[1] = v;
-saveCont(co, clofun107, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, e1);
+Obj _3519083_37= co->res;
+Obj _3517654_37 = R[1];
+Obj _3517655_37 = _3519083_37;
+R[1] = _3517654_37;
+saveCont(co, clofun108, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, _3517655_37);
 return;
 }
 case 4:
 {
-Obj _3518216_37= co->res;
+Obj _3519082_37= co->res;
 Obj exp = R[1];
-Obj v = R[2];
-R[1] = v;
-saveCont(co, clofun107, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v, exp);
+Obj _3517654_37 = R[2];
+R[1] = _3517654_37;
+saveCont(co, clofun108, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517654_37, exp);
 return;
 }
 case 5:
 {
-Obj _3518215_37= co->res;
+Obj _3519081_37= co->res;
 Obj exp = R[1];
-Obj v = R[2];
+Obj _3517654_37 = R[2];
 R[1] = exp;
-R[2] = v;
-saveCont(co, clofun107, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), Nil);
+R[2] = _3517654_37;
+saveCont(co, clofun108, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517654_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3518214_37= co->res;
+Obj _3519080_37= co->res;
 Obj exp = R[1];
-Obj v = _3518214_37;
+Obj _3517654_37 = _3519080_37;
 R[1] = exp;
-R[2] = v;
-saveCont(co, clofun107, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), MAKE_NUMBER(0));
+R[2] = _3517654_37;
+saveCont(co, clofun108, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517654_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2366,7 +2367,7 @@ return;
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2378,7 +2379,7 @@ return;
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2390,7 +2391,7 @@ return;
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2403,7 +2404,7 @@ return;
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2411,13 +2412,13 @@ Obj w = R[1];
 Obj label = R[2];
 R[1] = label;
 R[2] = w;
-saveCont(co, clofun102, 3, R);
+saveCont(co, clofun103, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3518208_37= co->res;
+Obj _3519074_37= co->res;
 Obj w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
@@ -2425,27 +2426,27 @@ return;
 }
 case 2:
 {
-Obj _3518207_37= co->res;
+Obj _3519073_37= co->res;
 Obj w = R[1];
 R[1] = w;
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun103, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3518206_37= co->res;
+Obj _3519072_37= co->res;
 Obj label = R[1];
 Obj w = R[2];
 R[1] = w;
-saveCont(co, clofun102, 2, R);
+saveCont(co, clofun103, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2453,13 +2454,13 @@ Obj w = R[1];
 Obj label = R[2];
 R[1] = w;
 R[2] = label;
-saveCont(co, clofun101, 1, R);
+saveCont(co, clofun102, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3518204_37= co->res;
+Obj _3519070_37= co->res;
 Obj w = R[1];
 Obj label = R[2];
 co->ctx.sp = R;
@@ -2469,146 +2470,146 @@ return;
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516797_37 = R[1];
-Obj _3516798_37 = R[2];
-Obj _3516799_37 = R[3];
-Obj _3516800_37 = R[4];
-Obj _3516801_37 = R[5];
-Obj _3516802_37 = makeNative(co->gc, 1, clofun99, 0, 0);
-Obj _3518182_37 = PRIM_ISCONS(_3516801_37);
-if (True == _3518182_37) {
-Obj _3518183_37 = PRIM_CAR(_3516801_37);
-Obj _3518184_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3518183_37);
-if (True == _3518184_37) {
-Obj _3518185_37 = PRIM_CDR(_3516801_37);
-Obj _3518186_37 = PRIM_ISCONS(_3518185_37);
-if (True == _3518186_37) {
-Obj _3518187_37 = PRIM_CDR(_3516801_37);
-Obj _3518188_37 = PRIM_CAR(_3518187_37);
-Obj var = _3518188_37;
-Obj _3518189_37 = PRIM_CDR(_3516801_37);
-Obj _3518190_37 = PRIM_CDR(_3518189_37);
-Obj _3518191_37 = PRIM_ISCONS(_3518190_37);
-if (True == _3518191_37) {
-Obj _3518192_37 = PRIM_CDR(_3516801_37);
-Obj _3518193_37 = PRIM_CDR(_3518192_37);
-Obj _3518194_37 = PRIM_CAR(_3518193_37);
-Obj body = _3518194_37;
-Obj _3518195_37 = PRIM_CDR(_3516801_37);
-Obj _3518196_37 = PRIM_CDR(_3518195_37);
-Obj _3518197_37 = PRIM_CDR(_3518196_37);
-Obj fvs = _3518197_37;
-R[1] = var;
-R[2] = fvs;
-R[3] = _3516797_37;
-R[4] = _3516798_37;
-R[5] = _3516799_37;
-R[6] = _3516800_37;
-R[7] = body;
-saveCont(co, clofun100, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516800_37, makeCString(co->gc, "Obj "));
+Obj _3517401_37 = R[1];
+Obj _3517402_37 = R[2];
+Obj _3517403_37 = R[3];
+Obj _3517404_37 = R[4];
+Obj _3517405_37 = R[5];
+Obj _3517650_37 = makeNative(co->gc, 1, clofun100, 0, 0);
+Obj _3519048_37 = PRIM_ISCONS(_3517405_37);
+if (True == _3519048_37) {
+Obj _3519049_37 = PRIM_CAR(_3517405_37);
+Obj _3519050_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3519049_37);
+if (True == _3519050_37) {
+Obj _3519051_37 = PRIM_CDR(_3517405_37);
+Obj _3519052_37 = PRIM_ISCONS(_3519051_37);
+if (True == _3519052_37) {
+Obj _3519053_37 = PRIM_CDR(_3517405_37);
+Obj _3519054_37 = PRIM_CAR(_3519053_37);
+Obj _3517651_37 = _3519054_37;
+Obj _3519055_37 = PRIM_CDR(_3517405_37);
+Obj _3519056_37 = PRIM_CDR(_3519055_37);
+Obj _3519057_37 = PRIM_ISCONS(_3519056_37);
+if (True == _3519057_37) {
+Obj _3519058_37 = PRIM_CDR(_3517405_37);
+Obj _3519059_37 = PRIM_CDR(_3519058_37);
+Obj _3519060_37 = PRIM_CAR(_3519059_37);
+Obj _3517652_37 = _3519060_37;
+Obj _3519061_37 = PRIM_CDR(_3517405_37);
+Obj _3519062_37 = PRIM_CDR(_3519061_37);
+Obj _3519063_37 = PRIM_CDR(_3519062_37);
+Obj _3517653_37 = _3519063_37;
+R[1] = _3517651_37;
+R[2] = _3517653_37;
+R[3] = _3517401_37;
+R[4] = _3517402_37;
+R[5] = _3517403_37;
+R[6] = _3517404_37;
+R[7] = _3517652_37;
+saveCont(co, clofun101, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517404_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516802_37);
+coraCall0(co, _3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516802_37);
+coraCall0(co, _3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516802_37);
+coraCall0(co, _3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516802_37);
+coraCall0(co, _3517650_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518202_37= co->res;
-Obj _3516797_37 = R[1];
-Obj _3516798_37 = R[2];
-Obj _3516799_37 = R[3];
-Obj _3516800_37 = R[4];
-Obj body = R[5];
+Obj _3519068_37= co->res;
+Obj _3517401_37 = R[1];
+Obj _3517402_37 = R[2];
+Obj _3517403_37 = R[3];
+Obj _3517404_37 = R[4];
+Obj _3517652_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3516797_37, _3516798_37, _3516799_37, _3516800_37, body};
+Obj __args[5] = {_3517401_37, _3517402_37, _3517403_37, _3517404_37, _3517652_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3518201_37= co->res;
-Obj fvs = R[1];
-Obj _3516797_37 = R[2];
-Obj _3516798_37 = R[3];
-Obj _3516799_37 = R[4];
-Obj _3516800_37 = R[5];
-Obj body = R[6];
-R[1] = _3516797_37;
-R[2] = _3516798_37;
-R[3] = _3516799_37;
-R[4] = _3516800_37;
-R[5] = body;
-saveCont(co, clofun100, 1, R);
-Obj __args[5] = {_3516797_37, _3516798_37, _3516799_37, _3516800_37, fvs};
+Obj _3519067_37= co->res;
+Obj _3517653_37 = R[1];
+Obj _3517401_37 = R[2];
+Obj _3517402_37 = R[3];
+Obj _3517403_37 = R[4];
+Obj _3517404_37 = R[5];
+Obj _3517652_37 = R[6];
+R[1] = _3517401_37;
+R[2] = _3517402_37;
+R[3] = _3517403_37;
+R[4] = _3517404_37;
+R[5] = _3517652_37;
+saveCont(co, clofun101, 1, R);
+Obj __args[5] = {_3517401_37, _3517402_37, _3517403_37, _3517404_37, _3517653_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518200_37= co->res;
-Obj fvs = R[1];
-Obj _3516797_37 = R[2];
-Obj _3516798_37 = R[3];
-Obj _3516799_37 = R[4];
-Obj _3516800_37 = R[5];
-Obj body = R[6];
-R[1] = fvs;
-R[2] = _3516797_37;
-R[3] = _3516798_37;
-R[4] = _3516799_37;
-R[5] = _3516800_37;
-R[6] = body;
-saveCont(co, clofun100, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3516800_37, makeCString(co->gc, "= co->res;\n"));
+Obj _3519066_37= co->res;
+Obj _3517653_37 = R[1];
+Obj _3517401_37 = R[2];
+Obj _3517402_37 = R[3];
+Obj _3517403_37 = R[4];
+Obj _3517404_37 = R[5];
+Obj _3517652_37 = R[6];
+R[1] = _3517653_37;
+R[2] = _3517401_37;
+R[3] = _3517402_37;
+R[4] = _3517403_37;
+R[5] = _3517404_37;
+R[6] = _3517652_37;
+saveCont(co, clofun101, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517404_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3518198_37= co->res;
-Obj var = R[1];
-Obj fvs = R[2];
-Obj _3516797_37 = R[3];
-Obj _3516798_37 = R[4];
-Obj _3516799_37 = R[5];
-Obj _3516800_37 = R[6];
-Obj body = R[7];
-Obj _3518199_37 = PRIM_CAR(var);
-R[1] = fvs;
-R[2] = _3516797_37;
-R[3] = _3516798_37;
-R[4] = _3516799_37;
-R[5] = _3516800_37;
-R[6] = body;
-saveCont(co, clofun100, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3516800_37, _3518199_37);
+Obj _3519064_37= co->res;
+Obj _3517651_37 = R[1];
+Obj _3517653_37 = R[2];
+Obj _3517401_37 = R[3];
+Obj _3517402_37 = R[4];
+Obj _3517403_37 = R[5];
+Obj _3517404_37 = R[6];
+Obj _3517652_37 = R[7];
+Obj _3519065_37 = PRIM_CAR(_3517651_37);
+R[1] = _3517653_37;
+R[2] = _3517401_37;
+R[3] = _3517402_37;
+R[4] = _3517403_37;
+R[5] = _3517404_37;
+R[6] = _3517652_37;
+saveCont(co, clofun101, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3517404_37, _3519065_37);
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2619,7 +2620,7 @@ return;
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2628,44 +2629,44 @@ Obj self = R[2];
 Obj env = R[3];
 Obj w = R[4];
 Obj l = R[5];
-Obj _3518168_37 = primGenSym(co);
-Obj generate_45inst_45list_45h = _3518168_37;
-Obj _3518179_37 = primSet(co, generate_45inst_45list_45h, makeNative(co->gc, 2, clofun97, 1, 5, globals, self, env, w, generate_45inst_45list_45h));
+Obj _3519034_37 = primGenSym(co);
+Obj _3517647_37 = _3519034_37;
+Obj _3519045_37 = primSet(co, _3517647_37, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, _3517647_37));
 R[1] = l;
-saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45list_45h);
+saveCont(co, clofun99, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517647_37);
 return;
 }
 case 1:
 {
-Obj _3518180_37= co->res;
+Obj _3519046_37= co->res;
 Obj l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518180_37, l);
+coraCall1(co, _3519046_37, l);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
-Obj _3518169_37 = PRIM_EQ(Nil, x);
-if (True == _3518169_37) {
+Obj _3519035_37 = PRIM_EQ(Nil, x);
+if (True == _3519035_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518170_37 = PRIM_ISCONS(x);
-if (True == _3518170_37) {
-Obj _3518171_37 = PRIM_CAR(x);
-Obj a = _3518171_37;
-Obj _3518172_37 = PRIM_CDR(x);
-Obj b = _3518172_37;
-R[1] = b;
-saveCont(co, clofun97, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), a};
+Obj _3519036_37 = PRIM_ISCONS(x);
+if (True == _3519036_37) {
+Obj _3519037_37 = PRIM_CAR(x);
+Obj _3517648_37 = _3519037_37;
+Obj _3519038_37 = PRIM_CDR(x);
+Obj _3517649_37 = _3519038_37;
+R[1] = _3517649_37;
+saveCont(co, clofun98, 5, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3517648_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2677,60 +2678,60 @@ return;
 }
 case 1:
 {
-Obj _3518177_37= co->res;
-Obj b = R[1];
+Obj _3519043_37= co->res;
+Obj _3517649_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518177_37, b);
+coraCall1(co, _3519043_37, _3517649_37);
 return;
 }
 case 2:
 {
-Obj _3518176_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun97, 1, R);
+Obj _3519042_37= co->res;
+Obj _3517649_37 = R[1];
+R[1] = _3517649_37;
+saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518178_37= co->res;
-Obj b = R[1];
+Obj _3519044_37= co->res;
+Obj _3517649_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3518178_37, b);
+coraCall1(co, _3519044_37, _3517649_37);
 return;
 }
 case 4:
 {
-Obj _3518174_37= co->res;
-Obj b = R[1];
-Obj _3518175_37 = primNot(_3518174_37);
-if (True == _3518175_37) {
-R[1] = b;
-saveCont(co, clofun97, 2, R);
+Obj _3519040_37= co->res;
+Obj _3517649_37 = R[1];
+Obj _3519041_37 = primNot(_3519040_37);
+if (True == _3519041_37) {
+R[1] = _3517649_37;
+saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = b;
-saveCont(co, clofun97, 3, R);
+R[1] = _3517649_37;
+saveCont(co, clofun98, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj _3518173_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun97, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), b);
+Obj _3519039_37= co->res;
+Obj _3517649_37 = R[1];
+R[1] = _3517649_37;
+saveCont(co, clofun98, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517649_37);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2739,312 +2740,312 @@ Obj self = R[2];
 Obj env1 = R[3];
 Obj w = R[4];
 Obj x1 = R[5];
-Obj _3517881_37 = primGenSym(co);
-Obj generate_45inst_45h = _3517881_37;
-Obj _3518165_37 = primSet(co, generate_45inst_45h, makeNative(co->gc, 3, clofun95, 2, 4, self, generate_45inst_45h, globals, w));
+Obj _3518747_37 = primGenSym(co);
+Obj _3517610_37 = _3518747_37;
+Obj _3519031_37 = primSet(co, _3517610_37, makeNative(co->gc, 3, clofun96, 2, 4, self, _3517610_37, globals, w));
 R[1] = x1;
 R[2] = env1;
-saveCont(co, clofun96, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), generate_45inst_45h);
+saveCont(co, clofun97, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517610_37);
 return;
 }
 case 1:
 {
-Obj _3518166_37= co->res;
+Obj _3519032_37= co->res;
 Obj x1 = R[1];
 Obj env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3518166_37, x1, env1);
+coraCall2(co, _3519032_37, x1, env1);
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x2 = R[1];
 Obj env = R[2];
-Obj _3517882_37 = primIsSymbol(x2);
-if (True == _3517882_37) {
+Obj _3518748_37 = primIsSymbol(x2);
+if (True == _3518748_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
 return;
 } else {
-Obj _3516783_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3518152_37 = PRIM_ISCONS(x2);
-if (True == _3518152_37) {
-Obj _3518153_37 = PRIM_CAR(x2);
-Obj _3518154_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3518153_37);
-if (True == _3518154_37) {
-Obj _3518155_37 = PRIM_CDR(x2);
-Obj _3518156_37 = PRIM_ISCONS(_3518155_37);
-if (True == _3518156_37) {
-Obj _3518157_37 = PRIM_CDR(x2);
-Obj _3518158_37 = PRIM_CAR(_3518157_37);
-Obj x = _3518158_37;
-Obj _3518159_37 = PRIM_CDR(x2);
-Obj _3518160_37 = PRIM_CDR(_3518159_37);
-Obj _3518161_37 = PRIM_EQ(Nil, _3518160_37);
-if (True == _3518161_37) {
-R[1] = x;
-saveCont(co, clofun95, 3, R);
+Obj _3517611_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
+Obj _3519018_37 = PRIM_ISCONS(x2);
+if (True == _3519018_37) {
+Obj _3519019_37 = PRIM_CAR(x2);
+Obj _3519020_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3519019_37);
+if (True == _3519020_37) {
+Obj _3519021_37 = PRIM_CDR(x2);
+Obj _3519022_37 = PRIM_ISCONS(_3519021_37);
+if (True == _3519022_37) {
+Obj _3519023_37 = PRIM_CDR(x2);
+Obj _3519024_37 = PRIM_CAR(_3519023_37);
+Obj _3517646_37 = _3519024_37;
+Obj _3519025_37 = PRIM_CDR(x2);
+Obj _3519026_37 = PRIM_CDR(_3519025_37);
+Obj _3519027_37 = PRIM_EQ(Nil, _3519026_37);
+if (True == _3519027_37) {
+R[1] = _3517646_37;
+saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516783_37);
+coraCall0(co, _3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516783_37);
+coraCall0(co, _3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516783_37);
+coraCall0(co, _3517611_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516783_37);
+coraCall0(co, _3517611_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518164_37= co->res;
+Obj _3519030_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3518163_37= co->res;
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3518163_37);
+Obj _3519029_37= co->res;
+saveCont(co, clofun96, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3519029_37);
 return;
 }
 case 3:
 {
-Obj _3518162_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 2));
+Obj _3519028_37= co->res;
+Obj _3517646_37 = R[1];
+saveCont(co, clofun96, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517646_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516784_37 = makeNative(co->gc, 2, clofun93, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3518140_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3518140_37) {
-Obj _3518141_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3518142_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518141_37);
-if (True == _3518142_37) {
-Obj _3518143_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518144_37 = PRIM_ISCONS(_3518143_37);
-if (True == _3518144_37) {
-Obj _3518145_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518146_37 = PRIM_CAR(_3518145_37);
-Obj idx = _3518146_37;
-Obj _3518147_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3518148_37 = PRIM_CDR(_3518147_37);
-Obj _3518149_37 = PRIM_EQ(Nil, _3518148_37);
-if (True == _3518149_37) {
-R[1] = idx;
-saveCont(co, clofun94, 2, R);
+Obj _3517612_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj _3519006_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == _3519006_37) {
+Obj _3519007_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj _3519008_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3519007_37);
+if (True == _3519008_37) {
+Obj _3519009_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3519010_37 = PRIM_ISCONS(_3519009_37);
+if (True == _3519010_37) {
+Obj _3519011_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3519012_37 = PRIM_CAR(_3519011_37);
+Obj _3517645_37 = _3519012_37;
+Obj _3519013_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj _3519014_37 = PRIM_CDR(_3519013_37);
+Obj _3519015_37 = PRIM_EQ(Nil, _3519014_37);
+if (True == _3519015_37) {
+R[1] = _3517645_37;
+saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, _3517612_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, _3517612_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, _3517612_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516784_37);
+coraCall0(co, _3517612_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518151_37= co->res;
+Obj _3519017_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518150_37= co->res;
-Obj idx = R[1];
-saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), idx);
+Obj _3519016_37= co->res;
+Obj _3517645_37 = R[1];
+saveCont(co, clofun95, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517645_37);
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516785_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518116_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518116_37) {
-Obj _3518117_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518118_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518117_37);
-if (True == _3518118_37) {
-Obj _3518119_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518120_37 = PRIM_ISCONS(_3518119_37);
-if (True == _3518120_37) {
-Obj _3518121_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518122_37 = PRIM_CAR(_3518121_37);
-Obj x = _3518122_37;
-Obj _3518123_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518124_37 = PRIM_CDR(_3518123_37);
-Obj _3518125_37 = PRIM_EQ(Nil, _3518124_37);
-if (True == _3518125_37) {
-Obj _3518126_37 = primIsSymbol(x);
-if (True == _3518126_37) {
-R[1] = x;
-saveCont(co, clofun93, 3, R);
+Obj _3517613_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518982_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == _3518982_37) {
+Obj _3518983_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj _3518984_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518983_37);
+if (True == _3518984_37) {
+Obj _3518985_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518986_37 = PRIM_ISCONS(_3518985_37);
+if (True == _3518986_37) {
+Obj _3518987_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518988_37 = PRIM_CAR(_3518987_37);
+Obj _3517644_37 = _3518988_37;
+Obj _3518989_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj _3518990_37 = PRIM_CDR(_3518989_37);
+Obj _3518991_37 = PRIM_EQ(Nil, _3518990_37);
+if (True == _3518991_37) {
+Obj _3518992_37 = primIsSymbol(_3517644_37);
+if (True == _3518992_37) {
+R[1] = _3517644_37;
+saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = x;
-saveCont(co, clofun93, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), x);
+R[1] = _3517644_37;
+saveCont(co, clofun94, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517644_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516785_37);
+coraCall0(co, _3517613_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516785_37);
+coraCall0(co, _3517613_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516785_37);
+coraCall0(co, _3517613_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516785_37);
+coraCall0(co, _3517613_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518129_37= co->res;
+Obj _3518995_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518128_37= co->res;
-saveCont(co, clofun93, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518128_37);
+Obj _3518994_37= co->res;
+saveCont(co, clofun94, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518994_37);
 return;
 }
 case 3:
 {
-Obj _3518127_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun93, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), x, closureRef(R[0], 4));
+Obj _3518993_37= co->res;
+Obj _3517644_37 = R[1];
+saveCont(co, clofun94, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517644_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518132_37= co->res;
+Obj _3518998_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518131_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun93, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), x);
+Obj _3518997_37= co->res;
+Obj _3517644_37 = R[1];
+saveCont(co, clofun94, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517644_37);
 return;
 }
 case 6:
 {
-Obj _3518136_37= co->res;
+Obj _3519002_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3518135_37= co->res;
-saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518135_37);
+Obj _3519001_37= co->res;
+saveCont(co, clofun94, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3519001_37);
 return;
 }
 case 8:
 {
-Obj _3518134_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun93, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), x);
+Obj _3519000_37= co->res;
+Obj _3517644_37 = R[1];
+saveCont(co, clofun94, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), _3517644_37);
 return;
 }
 case 9:
 {
-Obj _3518130_37= co->res;
-Obj x = R[1];
-if (True == _3518130_37) {
-R[1] = x;
-saveCont(co, clofun93, 5, R);
+Obj _3518996_37= co->res;
+Obj _3517644_37 = R[1];
+if (True == _3518996_37) {
+R[1] = _3517644_37;
+saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518133_37 = primIsString(x);
-if (True == _3518133_37) {
-R[1] = x;
-saveCont(co, clofun93, 8, R);
+Obj _3518999_37 = primIsString(_3517644_37);
+if (True == _3518999_37) {
+R[1] = _3517644_37;
+saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3518137_37 = PRIM_EQ(x, Nil);
-if (True == _3518137_37) {
+Obj _3519003_37 = PRIM_EQ(_3517644_37, Nil);
+if (True == _3519003_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3518138_37 = PRIM_EQ(x, True);
-if (True == _3518138_37) {
+Obj _3519004_37 = PRIM_EQ(_3517644_37, True);
+if (True == _3519004_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3518139_37 = PRIM_EQ(x, False);
-if (True == _3518139_37) {
+Obj _3519005_37 = PRIM_EQ(_3517644_37, False);
+if (True == _3519005_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3061,334 +3062,334 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516786_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518081_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518081_37) {
-Obj _3518082_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518083_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518082_37);
-if (True == _3518083_37) {
-Obj _3518084_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518085_37 = PRIM_ISCONS(_3518084_37);
-if (True == _3518085_37) {
-Obj _3518086_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518087_37 = PRIM_CAR(_3518086_37);
-Obj a = _3518087_37;
-Obj _3518088_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518089_37 = PRIM_CDR(_3518088_37);
-Obj _3518090_37 = PRIM_ISCONS(_3518089_37);
-if (True == _3518090_37) {
-Obj _3518091_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518092_37 = PRIM_CDR(_3518091_37);
-Obj _3518093_37 = PRIM_CAR(_3518092_37);
-Obj b = _3518093_37;
-Obj _3518094_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518095_37 = PRIM_CDR(_3518094_37);
-Obj _3518096_37 = PRIM_CDR(_3518095_37);
-Obj _3518097_37 = PRIM_ISCONS(_3518096_37);
-if (True == _3518097_37) {
-Obj _3518098_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518099_37 = PRIM_CDR(_3518098_37);
-Obj _3518100_37 = PRIM_CDR(_3518099_37);
-Obj _3518101_37 = PRIM_CAR(_3518100_37);
-Obj c = _3518101_37;
-Obj _3518102_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518103_37 = PRIM_CDR(_3518102_37);
-Obj _3518104_37 = PRIM_CDR(_3518103_37);
-Obj _3518105_37 = PRIM_CDR(_3518104_37);
-Obj _3518106_37 = PRIM_EQ(Nil, _3518105_37);
-if (True == _3518106_37) {
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), a, closureRef(R[0], 5));
+Obj _3517614_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518947_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518947_37) {
+Obj _3518948_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518949_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518948_37);
+if (True == _3518949_37) {
+Obj _3518950_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518951_37 = PRIM_ISCONS(_3518950_37);
+if (True == _3518951_37) {
+Obj _3518952_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518953_37 = PRIM_CAR(_3518952_37);
+Obj _3517641_37 = _3518953_37;
+Obj _3518954_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518955_37 = PRIM_CDR(_3518954_37);
+Obj _3518956_37 = PRIM_ISCONS(_3518955_37);
+if (True == _3518956_37) {
+Obj _3518957_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518958_37 = PRIM_CDR(_3518957_37);
+Obj _3518959_37 = PRIM_CAR(_3518958_37);
+Obj _3517642_37 = _3518959_37;
+Obj _3518960_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518961_37 = PRIM_CDR(_3518960_37);
+Obj _3518962_37 = PRIM_CDR(_3518961_37);
+Obj _3518963_37 = PRIM_ISCONS(_3518962_37);
+if (True == _3518963_37) {
+Obj _3518964_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518965_37 = PRIM_CDR(_3518964_37);
+Obj _3518966_37 = PRIM_CDR(_3518965_37);
+Obj _3518967_37 = PRIM_CAR(_3518966_37);
+Obj _3517643_37 = _3518967_37;
+Obj _3518968_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518969_37 = PRIM_CDR(_3518968_37);
+Obj _3518970_37 = PRIM_CDR(_3518969_37);
+Obj _3518971_37 = PRIM_CDR(_3518970_37);
+Obj _3518972_37 = PRIM_EQ(Nil, _3518971_37);
+if (True == _3518972_37) {
+R[1] = _3517642_37;
+R[2] = _3517641_37;
+R[3] = _3517643_37;
+saveCont(co, clofun93, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517641_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517614_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517614_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517614_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517614_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517614_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516786_37);
+coraCall0(co, _3517614_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518114_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-Obj _3518115_37 = makeCons(co->gc, a, closureRef(R[0], 5));
+Obj _3518980_37= co->res;
+Obj _3517641_37 = R[1];
+Obj _3517643_37 = R[2];
+Obj _3518981_37 = makeCons(co->gc, _3517641_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518114_37, c, _3518115_37);
+coraCall2(co, _3518980_37, _3517643_37, _3518981_37);
 return;
 }
 case 2:
 {
-Obj _3518113_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun92, 1, R);
+Obj _3518979_37= co->res;
+Obj _3517641_37 = R[1];
+Obj _3517643_37 = R[2];
+R[1] = _3517641_37;
+R[2] = _3517643_37;
+saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518112_37= co->res;
-Obj a = R[1];
-Obj c = R[2];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun92, 2, R);
+Obj _3518978_37= co->res;
+Obj _3517641_37 = R[1];
+Obj _3517643_37 = R[2];
+R[1] = _3517641_37;
+R[2] = _3517643_37;
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518111_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = c;
-saveCont(co, clofun92, 3, R);
-coraCall2(co, _3518111_37, b, closureRef(R[0], 5));
+Obj _3518977_37= co->res;
+Obj _3517642_37 = R[1];
+Obj _3517641_37 = R[2];
+Obj _3517643_37 = R[3];
+R[1] = _3517641_37;
+R[2] = _3517643_37;
+saveCont(co, clofun93, 3, R);
+coraCall2(co, _3518977_37, _3517642_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518110_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 4, R);
+Obj _3518976_37= co->res;
+Obj _3517642_37 = R[1];
+Obj _3517641_37 = R[2];
+Obj _3517643_37 = R[3];
+R[1] = _3517642_37;
+R[2] = _3517641_37;
+R[3] = _3517643_37;
+saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518109_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 5, R);
+Obj _3518975_37= co->res;
+Obj _3517642_37 = R[1];
+Obj _3517641_37 = R[2];
+Obj _3517643_37 = R[3];
+R[1] = _3517642_37;
+R[2] = _3517641_37;
+R[3] = _3517643_37;
+saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518108_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), a);
+Obj _3518974_37= co->res;
+Obj _3517642_37 = R[1];
+Obj _3517641_37 = R[2];
+Obj _3517643_37 = R[3];
+R[1] = _3517642_37;
+R[2] = _3517641_37;
+R[3] = _3517643_37;
+saveCont(co, clofun93, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), _3517641_37);
 return;
 }
 case 8:
 {
-Obj _3518107_37= co->res;
-Obj b = R[1];
-Obj a = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = a;
-R[3] = c;
-saveCont(co, clofun92, 7, R);
+Obj _3518973_37= co->res;
+Obj _3517642_37 = R[1];
+Obj _3517641_37 = R[2];
+Obj _3517643_37 = R[3];
+R[1] = _3517642_37;
+R[2] = _3517641_37;
+R[3] = _3517643_37;
+saveCont(co, clofun93, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516787_37 = makeNative(co->gc, 4, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518051_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518051_37) {
-Obj _3518052_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518053_37 = PRIM_ISCONS(_3518052_37);
-if (True == _3518053_37) {
-Obj _3518054_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518055_37 = PRIM_CAR(_3518054_37);
-Obj _3518056_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518055_37);
-if (True == _3518056_37) {
-Obj _3518057_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518058_37 = PRIM_CDR(_3518057_37);
-Obj _3518059_37 = PRIM_ISCONS(_3518058_37);
-if (True == _3518059_37) {
-Obj _3518060_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518061_37 = PRIM_CDR(_3518060_37);
-Obj _3518062_37 = PRIM_CAR(_3518061_37);
-Obj f = _3518062_37;
-Obj _3518063_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518064_37 = PRIM_CDR(_3518063_37);
-Obj _3518065_37 = PRIM_CDR(_3518064_37);
-Obj _3518066_37 = PRIM_EQ(Nil, _3518065_37);
-if (True == _3518066_37) {
-Obj _3518067_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj args = _3518067_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun91, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), f);
+Obj _3517615_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518917_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518917_37) {
+Obj _3518918_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518919_37 = PRIM_ISCONS(_3518918_37);
+if (True == _3518919_37) {
+Obj _3518920_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518921_37 = PRIM_CAR(_3518920_37);
+Obj _3518922_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3518921_37);
+if (True == _3518922_37) {
+Obj _3518923_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518924_37 = PRIM_CDR(_3518923_37);
+Obj _3518925_37 = PRIM_ISCONS(_3518924_37);
+if (True == _3518925_37) {
+Obj _3518926_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518927_37 = PRIM_CDR(_3518926_37);
+Obj _3518928_37 = PRIM_CAR(_3518927_37);
+Obj _3517639_37 = _3518928_37;
+Obj _3518929_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518930_37 = PRIM_CDR(_3518929_37);
+Obj _3518931_37 = PRIM_CDR(_3518930_37);
+Obj _3518932_37 = PRIM_EQ(Nil, _3518931_37);
+if (True == _3518932_37) {
+Obj _3518933_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3517640_37 = _3518933_37;
+R[1] = _3517639_37;
+R[2] = _3517640_37;
+saveCont(co, clofun92, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), _3517639_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517615_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517615_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517615_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517615_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516787_37);
+coraCall0(co, _3517615_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518072_37= co->res;
+Obj _3518938_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518071_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518937_37= co->res;
+Obj _3517640_37 = R[1];
+saveCont(co, clofun92, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518075_37= co->res;
+Obj _3518941_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518074_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518940_37= co->res;
+Obj _3517640_37 = R[1];
+saveCont(co, clofun92, 3, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518078_37= co->res;
+Obj _3518944_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518077_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518943_37= co->res;
+Obj _3517640_37 = R[1];
+saveCont(co, clofun92, 5, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518080_37= co->res;
+Obj _3518946_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518079_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun91, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518945_37= co->res;
+Obj _3517640_37 = R[1];
+saveCont(co, clofun92, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518069_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3518070_37 = PRIM_EQ(f, getBinding(co, packageID, 121).name);
-if (True == _3518070_37) {
-R[1] = args;
-saveCont(co, clofun91, 2, R);
+Obj _3518935_37= co->res;
+Obj _3517639_37 = R[1];
+Obj _3517640_37 = R[2];
+Obj _3518936_37 = PRIM_EQ(_3517639_37, getBinding(co, packageID, 121).name);
+if (True == _3518936_37) {
+R[1] = _3517640_37;
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518073_37 = PRIM_EQ(f, getBinding(co, packageID, 109).name);
-if (True == _3518073_37) {
-R[1] = args;
-saveCont(co, clofun91, 4, R);
+Obj _3518939_37 = PRIM_EQ(_3517639_37, getBinding(co, packageID, 109).name);
+if (True == _3518939_37) {
+R[1] = _3517640_37;
+saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518076_37 = PRIM_EQ(f, getBinding(co, packageID, 118).name);
-if (True == _3518076_37) {
-R[1] = args;
-saveCont(co, clofun91, 6, R);
+Obj _3518942_37 = PRIM_EQ(_3517639_37, getBinding(co, packageID, 118).name);
+if (True == _3518942_37) {
+R[1] = _3517640_37;
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = args;
-saveCont(co, clofun91, 8, R);
+R[1] = _3517640_37;
+saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3397,284 +3398,284 @@ return;
 }
 case 10:
 {
-Obj _3518068_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518068_37);
+Obj _3518934_37= co->res;
+Obj _3517639_37 = R[1];
+Obj _3517640_37 = R[2];
+R[1] = _3517639_37;
+R[2] = _3517640_37;
+saveCont(co, clofun92, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518934_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516788_37 = makeNative(co->gc, 5, clofun89, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518016_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518016_37) {
-Obj _3518017_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518018_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518017_37);
-if (True == _3518018_37) {
-Obj _3518019_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518020_37 = PRIM_ISCONS(_3518019_37);
-if (True == _3518020_37) {
-Obj _3518021_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518022_37 = PRIM_CAR(_3518021_37);
-Obj a = _3518022_37;
-Obj _3518023_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518024_37 = PRIM_CDR(_3518023_37);
-Obj _3518025_37 = PRIM_ISCONS(_3518024_37);
-if (True == _3518025_37) {
-Obj _3518026_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518027_37 = PRIM_CDR(_3518026_37);
-Obj _3518028_37 = PRIM_CAR(_3518027_37);
-Obj b = _3518028_37;
-Obj _3518029_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518030_37 = PRIM_CDR(_3518029_37);
-Obj _3518031_37 = PRIM_CDR(_3518030_37);
-Obj _3518032_37 = PRIM_ISCONS(_3518031_37);
-if (True == _3518032_37) {
-Obj _3518033_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518034_37 = PRIM_CDR(_3518033_37);
-Obj _3518035_37 = PRIM_CDR(_3518034_37);
-Obj _3518036_37 = PRIM_CAR(_3518035_37);
-Obj c = _3518036_37;
-Obj _3518037_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518038_37 = PRIM_CDR(_3518037_37);
-Obj _3518039_37 = PRIM_CDR(_3518038_37);
-Obj _3518040_37 = PRIM_CDR(_3518039_37);
-Obj _3518041_37 = PRIM_EQ(Nil, _3518040_37);
-if (True == _3518041_37) {
-R[1] = a;
-R[2] = b;
-R[3] = c;
-saveCont(co, clofun90, 9, R);
+Obj _3517616_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518882_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518882_37) {
+Obj _3518883_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518884_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518883_37);
+if (True == _3518884_37) {
+Obj _3518885_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518886_37 = PRIM_ISCONS(_3518885_37);
+if (True == _3518886_37) {
+Obj _3518887_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518888_37 = PRIM_CAR(_3518887_37);
+Obj _3517636_37 = _3518888_37;
+Obj _3518889_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518890_37 = PRIM_CDR(_3518889_37);
+Obj _3518891_37 = PRIM_ISCONS(_3518890_37);
+if (True == _3518891_37) {
+Obj _3518892_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518893_37 = PRIM_CDR(_3518892_37);
+Obj _3518894_37 = PRIM_CAR(_3518893_37);
+Obj _3517637_37 = _3518894_37;
+Obj _3518895_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518896_37 = PRIM_CDR(_3518895_37);
+Obj _3518897_37 = PRIM_CDR(_3518896_37);
+Obj _3518898_37 = PRIM_ISCONS(_3518897_37);
+if (True == _3518898_37) {
+Obj _3518899_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518900_37 = PRIM_CDR(_3518899_37);
+Obj _3518901_37 = PRIM_CDR(_3518900_37);
+Obj _3518902_37 = PRIM_CAR(_3518901_37);
+Obj _3517638_37 = _3518902_37;
+Obj _3518903_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518904_37 = PRIM_CDR(_3518903_37);
+Obj _3518905_37 = PRIM_CDR(_3518904_37);
+Obj _3518906_37 = PRIM_CDR(_3518905_37);
+Obj _3518907_37 = PRIM_EQ(Nil, _3518906_37);
+if (True == _3518907_37) {
+R[1] = _3517636_37;
+R[2] = _3517637_37;
+R[3] = _3517638_37;
+saveCont(co, clofun91, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517616_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516788_37);
+coraCall0(co, _3517616_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518050_37= co->res;
+Obj _3518916_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3518049_37= co->res;
-Obj c = R[1];
-saveCont(co, clofun90, 1, R);
-coraCall2(co, _3518049_37, c, closureRef(R[0], 4));
+Obj _3518915_37= co->res;
+Obj _3517638_37 = R[1];
+saveCont(co, clofun91, 1, R);
+coraCall2(co, _3518915_37, _3517638_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518048_37= co->res;
-Obj c = R[1];
-R[1] = c;
-saveCont(co, clofun90, 2, R);
+Obj _3518914_37= co->res;
+Obj _3517638_37 = R[1];
+R[1] = _3517638_37;
+saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518047_37= co->res;
-Obj c = R[1];
-R[1] = c;
-saveCont(co, clofun90, 3, R);
+Obj _3518913_37= co->res;
+Obj _3517638_37 = R[1];
+R[1] = _3517638_37;
+saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3518046_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = c;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, _3518046_37, b, closureRef(R[0], 4));
+Obj _3518912_37= co->res;
+Obj _3517637_37 = R[1];
+Obj _3517638_37 = R[2];
+R[1] = _3517638_37;
+saveCont(co, clofun91, 4, R);
+coraCall2(co, _3518912_37, _3517637_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518045_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun90, 5, R);
+Obj _3518911_37= co->res;
+Obj _3517637_37 = R[1];
+Obj _3517638_37 = R[2];
+R[1] = _3517637_37;
+R[2] = _3517638_37;
+saveCont(co, clofun91, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3518044_37= co->res;
-Obj b = R[1];
-Obj c = R[2];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun90, 6, R);
+Obj _3518910_37= co->res;
+Obj _3517637_37 = R[1];
+Obj _3517638_37 = R[2];
+R[1] = _3517637_37;
+R[2] = _3517638_37;
+saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3518043_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = b;
-R[2] = c;
-saveCont(co, clofun90, 7, R);
-coraCall2(co, _3518043_37, a, closureRef(R[0], 4));
+Obj _3518909_37= co->res;
+Obj _3517636_37 = R[1];
+Obj _3517637_37 = R[2];
+Obj _3517638_37 = R[3];
+R[1] = _3517637_37;
+R[2] = _3517638_37;
+saveCont(co, clofun91, 7, R);
+coraCall2(co, _3518909_37, _3517636_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3518042_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-Obj c = R[3];
-R[1] = a;
-R[2] = b;
-R[3] = c;
-saveCont(co, clofun90, 8, R);
+Obj _3518908_37= co->res;
+Obj _3517636_37 = R[1];
+Obj _3517637_37 = R[2];
+Obj _3517638_37 = R[3];
+R[1] = _3517636_37;
+R[2] = _3517637_37;
+R[3] = _3517638_37;
+saveCont(co, clofun91, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516789_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3517978_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517978_37) {
-Obj _3517979_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517980_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517979_37);
-if (True == _3517980_37) {
-Obj _3517981_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517982_37 = PRIM_ISCONS(_3517981_37);
-if (True == _3517982_37) {
-Obj _3517983_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517984_37 = PRIM_CAR(_3517983_37);
-Obj label = _3517984_37;
-Obj _3517985_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517986_37 = PRIM_CDR(_3517985_37);
-Obj _3517987_37 = PRIM_ISCONS(_3517986_37);
-if (True == _3517987_37) {
-Obj _3517988_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517989_37 = PRIM_CDR(_3517988_37);
-Obj _3517990_37 = PRIM_CAR(_3517989_37);
-Obj nargs = _3517990_37;
-Obj _3517991_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517992_37 = PRIM_CDR(_3517991_37);
-Obj _3517993_37 = PRIM_CDR(_3517992_37);
-Obj _3517994_37 = PRIM_ISCONS(_3517993_37);
-if (True == _3517994_37) {
-Obj _3517995_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517996_37 = PRIM_CDR(_3517995_37);
-Obj _3517997_37 = PRIM_CDR(_3517996_37);
-Obj _3517998_37 = PRIM_CAR(_3517997_37);
-Obj nframe = _3517998_37;
-Obj _3517999_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518000_37 = PRIM_CDR(_3517999_37);
-Obj _3518001_37 = PRIM_CDR(_3518000_37);
-Obj _3518002_37 = PRIM_CDR(_3518001_37);
-Obj frees = _3518002_37;
-R[1] = nframe;
-R[2] = label;
-R[3] = nargs;
-R[4] = frees;
-saveCont(co, clofun89, 12, R);
+Obj _3517617_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj _3518844_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518844_37) {
+Obj _3518845_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518846_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518845_37);
+if (True == _3518846_37) {
+Obj _3518847_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518848_37 = PRIM_ISCONS(_3518847_37);
+if (True == _3518848_37) {
+Obj _3518849_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518850_37 = PRIM_CAR(_3518849_37);
+Obj _3517632_37 = _3518850_37;
+Obj _3518851_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518852_37 = PRIM_CDR(_3518851_37);
+Obj _3518853_37 = PRIM_ISCONS(_3518852_37);
+if (True == _3518853_37) {
+Obj _3518854_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518855_37 = PRIM_CDR(_3518854_37);
+Obj _3518856_37 = PRIM_CAR(_3518855_37);
+Obj _3517633_37 = _3518856_37;
+Obj _3518857_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518858_37 = PRIM_CDR(_3518857_37);
+Obj _3518859_37 = PRIM_CDR(_3518858_37);
+Obj _3518860_37 = PRIM_ISCONS(_3518859_37);
+if (True == _3518860_37) {
+Obj _3518861_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518862_37 = PRIM_CDR(_3518861_37);
+Obj _3518863_37 = PRIM_CDR(_3518862_37);
+Obj _3518864_37 = PRIM_CAR(_3518863_37);
+Obj _3517634_37 = _3518864_37;
+Obj _3518865_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518866_37 = PRIM_CDR(_3518865_37);
+Obj _3518867_37 = PRIM_CDR(_3518866_37);
+Obj _3518868_37 = PRIM_CDR(_3518867_37);
+Obj _3517635_37 = _3518868_37;
+R[1] = _3517634_37;
+R[2] = _3517632_37;
+R[3] = _3517633_37;
+R[4] = _3517635_37;
+saveCont(co, clofun90, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516789_37);
+coraCall0(co, _3517617_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518015_37= co->res;
+Obj _3518881_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518014_37= co->res;
-Obj frees = R[1];
-saveCont(co, clofun89, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), frees};
+Obj _3518880_37= co->res;
+Obj _3517635_37 = R[1];
+saveCont(co, clofun90, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517635_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518012_37= co->res;
-Obj frees = R[1];
-Obj _3518013_37 = primNot(_3518012_37);
-if (True == _3518013_37) {
-R[1] = frees;
-saveCont(co, clofun89, 2, R);
+Obj _3518878_37= co->res;
+Obj _3517635_37 = R[1];
+Obj _3518879_37 = primNot(_3518878_37);
+if (True == _3518879_37) {
+R[1] = _3517635_37;
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3686,501 +3687,501 @@ return;
 }
 case 4:
 {
-Obj _3518011_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), frees);
+Obj _3518877_37= co->res;
+Obj _3517635_37 = R[1];
+R[1] = _3517635_37;
+saveCont(co, clofun90, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517635_37);
 return;
 }
 case 5:
 {
-Obj _3518010_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518010_37);
+Obj _3518876_37= co->res;
+Obj _3517635_37 = R[1];
+R[1] = _3517635_37;
+saveCont(co, clofun90, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518876_37);
 return;
 }
 case 6:
 {
-Obj _3518009_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), frees);
+Obj _3518875_37= co->res;
+Obj _3517635_37 = R[1];
+R[1] = _3517635_37;
+saveCont(co, clofun90, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517635_37);
 return;
 }
 case 7:
 {
-Obj _3518008_37= co->res;
-Obj frees = R[1];
-R[1] = frees;
-saveCont(co, clofun89, 6, R);
+Obj _3518874_37= co->res;
+Obj _3517635_37 = R[1];
+R[1] = _3517635_37;
+saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3518007_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = frees;
-saveCont(co, clofun89, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518873_37= co->res;
+Obj _3517633_37 = R[1];
+Obj _3517635_37 = R[2];
+R[1] = _3517635_37;
+saveCont(co, clofun90, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517633_37);
 return;
 }
 case 9:
 {
-Obj _3518006_37= co->res;
-Obj nargs = R[1];
-Obj frees = R[2];
-R[1] = nargs;
-R[2] = frees;
-saveCont(co, clofun89, 8, R);
+Obj _3518872_37= co->res;
+Obj _3517633_37 = R[1];
+Obj _3517635_37 = R[2];
+R[1] = _3517633_37;
+R[2] = _3517635_37;
+saveCont(co, clofun90, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3518005_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = nargs;
-R[2] = frees;
-saveCont(co, clofun89, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), label);
+Obj _3518871_37= co->res;
+Obj _3517632_37 = R[1];
+Obj _3517633_37 = R[2];
+Obj _3517635_37 = R[3];
+R[1] = _3517633_37;
+R[2] = _3517635_37;
+saveCont(co, clofun90, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), _3517632_37);
 return;
 }
 case 11:
 {
-Obj _3518004_37= co->res;
-Obj label = R[1];
-Obj nargs = R[2];
-Obj frees = R[3];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
-saveCont(co, clofun89, 10, R);
+Obj _3518870_37= co->res;
+Obj _3517632_37 = R[1];
+Obj _3517633_37 = R[2];
+Obj _3517635_37 = R[3];
+R[1] = _3517632_37;
+R[2] = _3517633_37;
+R[3] = _3517635_37;
+saveCont(co, clofun90, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3518003_37= co->res;
-Obj nframe = R[1];
-Obj label = R[2];
-Obj nargs = R[3];
-Obj frees = R[4];
-R[1] = label;
-R[2] = nargs;
-R[3] = frees;
-saveCont(co, clofun89, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nframe);
+Obj _3518869_37= co->res;
+Obj _3517634_37 = R[1];
+Obj _3517632_37 = R[2];
+Obj _3517633_37 = R[3];
+Obj _3517635_37 = R[4];
+R[1] = _3517632_37;
+R[2] = _3517633_37;
+R[3] = _3517635_37;
+saveCont(co, clofun90, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517634_37);
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516790_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3517957_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517957_37) {
-Obj _3517958_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517959_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517958_37);
-if (True == _3517959_37) {
-Obj _3517960_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517961_37 = PRIM_ISCONS(_3517960_37);
-if (True == _3517961_37) {
-Obj _3517962_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517963_37 = PRIM_CAR(_3517962_37);
-Obj a = _3517963_37;
-Obj _3517964_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517965_37 = PRIM_CDR(_3517964_37);
-Obj _3517966_37 = PRIM_ISCONS(_3517965_37);
-if (True == _3517966_37) {
-Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517968_37 = PRIM_CDR(_3517967_37);
-Obj _3517969_37 = PRIM_CAR(_3517968_37);
-Obj b = _3517969_37;
-Obj _3517970_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517971_37 = PRIM_CDR(_3517970_37);
-Obj _3517972_37 = PRIM_CDR(_3517971_37);
-Obj _3517973_37 = PRIM_EQ(Nil, _3517972_37);
-if (True == _3517973_37) {
-R[1] = a;
-R[2] = b;
-saveCont(co, clofun88, 4, R);
+Obj _3517618_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj _3518823_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518823_37) {
+Obj _3518824_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518825_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518824_37);
+if (True == _3518825_37) {
+Obj _3518826_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518827_37 = PRIM_ISCONS(_3518826_37);
+if (True == _3518827_37) {
+Obj _3518828_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518829_37 = PRIM_CAR(_3518828_37);
+Obj _3517630_37 = _3518829_37;
+Obj _3518830_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518831_37 = PRIM_CDR(_3518830_37);
+Obj _3518832_37 = PRIM_ISCONS(_3518831_37);
+if (True == _3518832_37) {
+Obj _3518833_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518834_37 = PRIM_CDR(_3518833_37);
+Obj _3518835_37 = PRIM_CAR(_3518834_37);
+Obj _3517631_37 = _3518835_37;
+Obj _3518836_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518837_37 = PRIM_CDR(_3518836_37);
+Obj _3518838_37 = PRIM_CDR(_3518837_37);
+Obj _3518839_37 = PRIM_EQ(Nil, _3518838_37);
+if (True == _3518839_37) {
+R[1] = _3517630_37;
+R[2] = _3517631_37;
+saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516790_37);
+coraCall0(co, _3517618_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517977_37= co->res;
-Obj b = R[1];
+Obj _3518843_37= co->res;
+Obj _3517631_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3517977_37, b, closureRef(R[0], 5));
+coraCall2(co, _3518843_37, _3517631_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3517976_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun88, 1, R);
+Obj _3518842_37= co->res;
+Obj _3517631_37 = R[1];
+R[1] = _3517631_37;
+saveCont(co, clofun89, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517975_37= co->res;
-Obj b = R[1];
-R[1] = b;
-saveCont(co, clofun88, 2, R);
+Obj _3518841_37= co->res;
+Obj _3517631_37 = R[1];
+R[1] = _3517631_37;
+saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3517974_37= co->res;
-Obj a = R[1];
-Obj b = R[2];
-R[1] = b;
-saveCont(co, clofun88, 3, R);
-coraCall2(co, _3517974_37, a, closureRef(R[0], 5));
+Obj _3518840_37= co->res;
+Obj _3517630_37 = R[1];
+Obj _3517631_37 = R[2];
+R[1] = _3517631_37;
+saveCont(co, clofun89, 3, R);
+coraCall2(co, _3518840_37, _3517630_37, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516791_37 = makeNative(co->gc, 2, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517943_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517943_37) {
-Obj _3517944_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517945_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517944_37);
-if (True == _3517945_37) {
-Obj _3517946_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517947_37 = PRIM_ISCONS(_3517946_37);
-if (True == _3517947_37) {
-Obj _3517948_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517949_37 = PRIM_CAR(_3517948_37);
-Obj x = _3517949_37;
-Obj _3517950_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517951_37 = PRIM_CDR(_3517950_37);
-Obj _3517952_37 = PRIM_EQ(Nil, _3517951_37);
-if (True == _3517952_37) {
-R[1] = x;
-saveCont(co, clofun87, 4, R);
+Obj _3517619_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518809_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518809_37) {
+Obj _3518810_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518811_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3518810_37);
+if (True == _3518811_37) {
+Obj _3518812_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518813_37 = PRIM_ISCONS(_3518812_37);
+if (True == _3518813_37) {
+Obj _3518814_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518815_37 = PRIM_CAR(_3518814_37);
+Obj _3517629_37 = _3518815_37;
+Obj _3518816_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518817_37 = PRIM_CDR(_3518816_37);
+Obj _3518818_37 = PRIM_EQ(Nil, _3518817_37);
+if (True == _3518818_37) {
+R[1] = _3517629_37;
+saveCont(co, clofun88, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516791_37);
+coraCall0(co, _3517619_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517956_37= co->res;
+Obj _3518822_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517955_37= co->res;
-saveCont(co, clofun87, 1, R);
+Obj _3518821_37= co->res;
+saveCont(co, clofun88, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3517954_37= co->res;
-Obj x = R[1];
-saveCont(co, clofun87, 2, R);
-coraCall2(co, _3517954_37, x, closureRef(R[0], 4));
+Obj _3518820_37= co->res;
+Obj _3517629_37 = R[1];
+saveCont(co, clofun88, 2, R);
+coraCall2(co, _3518820_37, _3517629_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3517953_37= co->res;
-Obj x = R[1];
-R[1] = x;
-saveCont(co, clofun87, 3, R);
+Obj _3518819_37= co->res;
+Obj _3517629_37 = R[1];
+R[1] = _3517629_37;
+saveCont(co, clofun88, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516792_37 = makeNative(co->gc, 3, clofun85, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517930_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3517930_37) {
-Obj _3517931_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3517932_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517931_37);
-if (True == _3517932_37) {
-Obj _3517933_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517934_37 = PRIM_ISCONS(_3517933_37);
-if (True == _3517934_37) {
-Obj _3517935_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517936_37 = PRIM_CAR(_3517935_37);
-Obj exp = _3517936_37;
-Obj _3517937_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3517938_37 = PRIM_CDR(_3517937_37);
-Obj _3517939_37 = PRIM_EQ(Nil, _3517938_37);
-if (True == _3517939_37) {
-R[1] = exp;
-saveCont(co, clofun86, 3, R);
+Obj _3517620_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518796_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == _3518796_37) {
+Obj _3518797_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj _3518798_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518797_37);
+if (True == _3518798_37) {
+Obj _3518799_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518800_37 = PRIM_ISCONS(_3518799_37);
+if (True == _3518800_37) {
+Obj _3518801_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518802_37 = PRIM_CAR(_3518801_37);
+Obj _3517628_37 = _3518802_37;
+Obj _3518803_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj _3518804_37 = PRIM_CDR(_3518803_37);
+Obj _3518805_37 = PRIM_EQ(Nil, _3518804_37);
+if (True == _3518805_37) {
+R[1] = _3517628_37;
+saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516792_37);
+coraCall0(co, _3517620_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517942_37= co->res;
+Obj _3518808_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517941_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, _3517941_37, exp, closureRef(R[0], 4));
+Obj _3518807_37= co->res;
+Obj _3517628_37 = R[1];
+saveCont(co, clofun87, 1, R);
+coraCall2(co, _3518807_37, _3517628_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517940_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun86, 2, R);
+Obj _3518806_37= co->res;
+Obj _3517628_37 = R[1];
+R[1] = _3517628_37;
+saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516793_37 = makeNative(co->gc, 4, clofun84, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3517906_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517906_37) {
-Obj _3517907_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517908_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517907_37);
-if (True == _3517908_37) {
-Obj _3517909_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517910_37 = PRIM_ISCONS(_3517909_37);
-if (True == _3517910_37) {
-Obj _3517911_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517912_37 = PRIM_CAR(_3517911_37);
-Obj exp = _3517912_37;
-Obj _3517913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517914_37 = PRIM_CDR(_3517913_37);
-Obj _3517915_37 = PRIM_ISCONS(_3517914_37);
-if (True == _3517915_37) {
-Obj _3517916_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517917_37 = PRIM_CDR(_3517916_37);
-Obj _3517918_37 = PRIM_CAR(_3517917_37);
-Obj label = _3517918_37;
-Obj _3517919_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517920_37 = PRIM_CDR(_3517919_37);
-Obj _3517921_37 = PRIM_CDR(_3517920_37);
-Obj fvs = _3517921_37;
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), fvs};
+Obj _3517621_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj _3518772_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518772_37) {
+Obj _3518773_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518774_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518773_37);
+if (True == _3518774_37) {
+Obj _3518775_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518776_37 = PRIM_ISCONS(_3518775_37);
+if (True == _3518776_37) {
+Obj _3518777_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518778_37 = PRIM_CAR(_3518777_37);
+Obj _3517625_37 = _3518778_37;
+Obj _3518779_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518780_37 = PRIM_CDR(_3518779_37);
+Obj _3518781_37 = PRIM_ISCONS(_3518780_37);
+if (True == _3518781_37) {
+Obj _3518782_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518783_37 = PRIM_CDR(_3518782_37);
+Obj _3518784_37 = PRIM_CAR(_3518783_37);
+Obj _3517626_37 = _3518784_37;
+Obj _3518785_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518786_37 = PRIM_CDR(_3518785_37);
+Obj _3518787_37 = PRIM_CDR(_3518786_37);
+Obj _3517627_37 = _3518787_37;
+R[1] = _3517626_37;
+R[2] = _3517625_37;
+saveCont(co, clofun86, 8, R);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), _3517627_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516793_37);
+coraCall0(co, _3517621_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517929_37= co->res;
+Obj _3518795_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3517928_37= co->res;
-Obj exp = R[1];
-saveCont(co, clofun85, 1, R);
-coraCall2(co, _3517928_37, exp, closureRef(R[0], 4));
+Obj _3518794_37= co->res;
+Obj _3517625_37 = R[1];
+saveCont(co, clofun86, 1, R);
+coraCall2(co, _3518794_37, _3517625_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3517927_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun85, 2, R);
+Obj _3518793_37= co->res;
+Obj _3517625_37 = R[1];
+R[1] = _3517625_37;
+saveCont(co, clofun86, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3517926_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-saveCont(co, clofun85, 3, R);
+Obj _3518792_37= co->res;
+Obj _3517625_37 = R[1];
+R[1] = _3517625_37;
+saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3517925_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = exp;
-saveCont(co, clofun85, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), label);
+Obj _3518791_37= co->res;
+Obj _3517626_37 = R[1];
+Obj _3517625_37 = R[2];
+R[1] = _3517625_37;
+saveCont(co, clofun86, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517626_37);
 return;
 }
 case 6:
 {
-Obj _3517924_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 5, R);
+Obj _3518790_37= co->res;
+Obj _3517626_37 = R[1];
+Obj _3517625_37 = R[2];
+R[1] = _3517626_37;
+R[2] = _3517625_37;
+saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3517923_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 6, R);
+Obj _3518789_37= co->res;
+Obj _3517626_37 = R[1];
+Obj _3517625_37 = R[2];
+R[1] = _3517626_37;
+R[2] = _3517625_37;
+saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3517922_37= co->res;
-Obj label = R[1];
-Obj exp = R[2];
-R[1] = label;
-R[2] = exp;
-saveCont(co, clofun85, 7, R);
+Obj _3518788_37= co->res;
+Obj _3517626_37 = R[1];
+Obj _3517625_37 = R[2];
+R[1] = _3517626_37;
+R[2] = _3517625_37;
+saveCont(co, clofun86, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517883_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517883_37) {
-Obj _3517884_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517884_37;
-Obj _3517885_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517885_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun84, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+Obj _3518749_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518749_37) {
+Obj _3518750_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517622_37 = _3518750_37;
+Obj _3518751_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517623_37 = _3518751_37;
+R[1] = _3517622_37;
+R[2] = _3517623_37;
+saveCont(co, clofun85, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517623_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4190,135 +4191,135 @@ return;
 }
 case 1:
 {
-Obj _3517897_37= co->res;
+Obj _3518763_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3517896_37= co->res;
-Obj nargs = R[1];
-saveCont(co, clofun84, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518762_37= co->res;
+Obj _3517624_37 = R[1];
+saveCont(co, clofun85, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517624_37);
 return;
 }
 case 3:
 {
-Obj _3517895_37= co->res;
-Obj nargs = R[1];
-R[1] = nargs;
-saveCont(co, clofun84, 2, R);
+Obj _3518761_37= co->res;
+Obj _3517624_37 = R[1];
+R[1] = _3517624_37;
+saveCont(co, clofun85, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3517894_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = nargs;
-saveCont(co, clofun84, 3, R);
-coraCall2(co, _3517894_37, f, closureRef(R[0], 4));
+Obj _3518760_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+R[1] = _3517624_37;
+saveCont(co, clofun85, 3, R);
+coraCall2(co, _3518760_37, _3517622_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3517893_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 4, R);
+Obj _3518759_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+saveCont(co, clofun85, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3517892_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 5, R);
+Obj _3518758_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3517891_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 6, R);
+Obj _3518757_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+saveCont(co, clofun85, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3517890_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = f;
-R[2] = nargs;
-saveCont(co, clofun84, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518756_37= co->res;
+Obj _3517623_37 = R[1];
+Obj _3517622_37 = R[2];
+Obj _3517624_37 = R[3];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+saveCont(co, clofun85, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517623_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3517889_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun84, 8, R);
+Obj _3518755_37= co->res;
+Obj _3517623_37 = R[1];
+Obj _3517622_37 = R[2];
+Obj _3517624_37 = R[3];
+R[1] = _3517623_37;
+R[2] = _3517622_37;
+R[3] = _3517624_37;
+saveCont(co, clofun85, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3517888_37= co->res;
-Obj args = R[1];
-Obj f = R[2];
-Obj nargs = R[3];
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun84, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518754_37= co->res;
+Obj _3517623_37 = R[1];
+Obj _3517622_37 = R[2];
+Obj _3517624_37 = R[3];
+R[1] = _3517623_37;
+R[2] = _3517622_37;
+R[3] = _3517624_37;
+saveCont(co, clofun85, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517624_37);
 return;
 }
 case 11:
 {
-Obj _3517905_37= co->res;
+Obj _3518771_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3517904_37= co->res;
-Obj args = R[1];
-saveCont(co, clofun84, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), args};
+Obj _3518770_37= co->res;
+Obj _3517623_37 = R[1];
+saveCont(co, clofun85, 11, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517623_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3517902_37= co->res;
-Obj nargs = R[1];
-Obj args = R[2];
-Obj _3517903_37 = PRIM_GT(nargs, MAKE_NUMBER(0));
-if (True == _3517903_37) {
-R[1] = args;
-saveCont(co, clofun84, 12, R);
+Obj _3518768_37= co->res;
+Obj _3517624_37 = R[1];
+Obj _3517623_37 = R[2];
+Obj _3518769_37 = PRIM_GT(_3517624_37, MAKE_NUMBER(0));
+if (True == _3518769_37) {
+R[1] = _3517623_37;
+saveCont(co, clofun85, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4330,74 +4331,74 @@ return;
 }
 case 14:
 {
-Obj _3517901_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = nargs;
-R[2] = args;
-saveCont(co, clofun84, 13, R);
-coraCall2(co, _3517901_37, f, closureRef(R[0], 4));
+Obj _3518767_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+Obj _3517623_37 = R[3];
+R[1] = _3517624_37;
+R[2] = _3517623_37;
+saveCont(co, clofun85, 13, R);
+coraCall2(co, _3518767_37, _3517622_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3517900_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 14, R);
+Obj _3518766_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+Obj _3517623_37 = R[3];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+R[3] = _3517623_37;
+saveCont(co, clofun85, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3517899_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 15, R);
+Obj _3518765_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+Obj _3517623_37 = R[3];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+R[3] = _3517623_37;
+saveCont(co, clofun85, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3517898_37= co->res;
-Obj f = R[1];
-Obj nargs = R[2];
-Obj args = R[3];
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), nargs);
+Obj _3518764_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517624_37 = R[2];
+Obj _3517623_37 = R[3];
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+R[3] = _3517623_37;
+saveCont(co, clofun85, 16, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517624_37);
 return;
 }
 case 18:
 {
-Obj _3517886_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj nargs = _3517886_37;
-Obj _3517887_37 = PRIM_GT(nargs, MAKE_NUMBER(4));
-if (True == _3517887_37) {
-R[1] = args;
-R[2] = f;
-R[3] = nargs;
-saveCont(co, clofun84, 10, R);
+Obj _3518752_37= co->res;
+Obj _3517622_37 = R[1];
+Obj _3517623_37 = R[2];
+Obj _3517624_37 = _3518752_37;
+Obj _3518753_37 = PRIM_GT(_3517624_37, MAKE_NUMBER(4));
+if (True == _3518753_37) {
+R[1] = _3517623_37;
+R[2] = _3517622_37;
+R[3] = _3517624_37;
+saveCont(co, clofun85, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = f;
-R[2] = nargs;
-R[3] = args;
-saveCont(co, clofun84, 17, R);
+R[1] = _3517622_37;
+R[2] = _3517624_37;
+R[3] = _3517623_37;
+saveCont(co, clofun85, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4405,7 +4406,7 @@ return;
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4415,13 +4416,13 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun83, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4429,52 +4430,52 @@ Obj acc = R[1];
 Obj v = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun82, 5, R);
+saveCont(co, clofun83, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3517878_37= co->res;
+Obj _3518744_37= co->res;
 Obj acc = R[1];
-Obj _3517879_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517879_37);
+Obj _3518745_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518745_37);
 return;
 }
 case 2:
 {
-Obj _3517877_37= co->res;
+Obj _3518743_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 1, R);
+saveCont(co, clofun83, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3517876_37= co->res;
+Obj _3518742_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 2, R);
+saveCont(co, clofun83, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 case 4:
 {
-Obj _3517875_37= co->res;
+Obj _3518741_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun82, 3, R);
+saveCont(co, clofun83, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3517874_37= co->res;
+Obj _3518740_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun82, 4, R);
+saveCont(co, clofun83, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
@@ -4482,7 +4483,7 @@ return;
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4492,13 +4493,13 @@ Obj env = R[3];
 Obj w = R[4];
 Obj ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun80, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun81, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4506,64 +4507,64 @@ Obj acc = R[1];
 Obj v = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 5, R);
+saveCont(co, clofun81, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3517871_37= co->res;
+Obj _3518737_37= co->res;
 Obj acc = R[1];
-Obj _3517872_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3517872_37);
+Obj _3518738_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
+coraReturn(co, _3518738_37);
 return;
 }
 case 2:
 {
-Obj _3517870_37= co->res;
+Obj _3518736_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun80, 1, R);
+saveCont(co, clofun81, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3517869_37= co->res;
+Obj _3518735_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = acc;
-saveCont(co, clofun80, 2, R);
+saveCont(co, clofun81, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3517868_37= co->res;
+Obj _3518734_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 3, R);
+saveCont(co, clofun81, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3517867_37= co->res;
+Obj _3518733_37= co->res;
 Obj v = R[1];
 Obj acc = R[2];
 R[1] = v;
 R[2] = acc;
-saveCont(co, clofun80, 4, R);
+saveCont(co, clofun81, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
 return;
 }
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4576,7 +4577,7 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4586,30 +4587,30 @@ Obj globals = R[3];
 R[1] = idx;
 R[2] = globals;
 R[3] = sym;
-saveCont(co, clofun78, 1, R);
+saveCont(co, clofun79, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
 return;
 }
 case 1:
 {
-Obj _3517860_37= co->res;
+Obj _3518726_37= co->res;
 Obj idx = R[1];
 Obj globals = R[2];
 Obj sym = R[3];
-if (True == _3517860_37) {
+if (True == _3518726_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517861_37 = PRIM_CAR(globals);
-Obj _3517862_37 = PRIM_EQ(sym, _3517861_37);
-if (True == _3517862_37) {
+Obj _3518727_37 = PRIM_CAR(globals);
+Obj _3518728_37 = PRIM_EQ(sym, _3518727_37);
+if (True == _3518728_37) {
 coraReturn(co, idx);
 return;
 } else {
-Obj _3517863_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3517864_37 = PRIM_CDR(globals);
+Obj _3518729_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3518730_37 = PRIM_CDR(globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3517863_37, sym, _3517864_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3518729_37, sym, _3518730_37);
 return;
 }
 }
@@ -4617,7 +4618,7 @@ return;
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4625,72 +4626,72 @@ Obj sym = R[1];
 Obj globals = R[2];
 R[1] = sym;
 R[2] = globals;
-saveCont(co, clofun77, 2, R);
+saveCont(co, clofun78, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
 return;
 }
 case 1:
 {
-Obj _3517856_37= co->res;
+Obj _3518722_37= co->res;
 Obj sym = R[1];
-Obj val = R[2];
+Obj _3517609_37 = R[2];
 Obj globals = R[3];
-if (True == _3517856_37) {
+if (True == _3518722_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517857_37 = makeCons(co->gc, sym, val);
-Obj _3517858_37 = primSet(co, globals, _3517857_37);
-coraReturn(co, _3517858_37);
+Obj _3518723_37 = makeCons(co->gc, sym, _3517609_37);
+Obj _3518724_37 = primSet(co, globals, _3518723_37);
+coraReturn(co, _3518724_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517855_37= co->res;
+Obj _3518721_37= co->res;
 Obj sym = R[1];
 Obj globals = R[2];
-Obj val = _3517855_37;
+Obj _3517609_37 = _3518721_37;
 R[1] = sym;
-R[2] = val;
+R[2] = _3517609_37;
 R[3] = globals;
-saveCont(co, clofun77, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), sym, val);
+saveCont(co, clofun78, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), sym, _3517609_37);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
 Obj k = R[2];
-Obj _3517848_37 = primGenSym(co);
-Obj tmp = _3517848_37;
+Obj _3518714_37 = primGenSym(co);
+Obj _3517608_37 = _3518714_37;
 R[1] = x;
-R[2] = tmp;
-saveCont(co, clofun76, 1, R);
-coraCall1(co, k, tmp);
+R[2] = _3517608_37;
+saveCont(co, clofun77, 1, R);
+coraCall1(co, k, _3517608_37);
 return;
 }
 case 1:
 {
-Obj _3517849_37= co->res;
+Obj _3518715_37= co->res;
 Obj x = R[1];
-Obj tmp = R[2];
-Obj _3517850_37 = makeCons(co->gc, _3517849_37, Nil);
-Obj _3517851_37 = makeCons(co->gc, x, _3517850_37);
-Obj _3517852_37 = makeCons(co->gc, tmp, _3517851_37);
-Obj _3517853_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517852_37);
-coraReturn(co, _3517853_37);
+Obj _3517608_37 = R[2];
+Obj _3518716_37 = makeCons(co->gc, _3518715_37, Nil);
+Obj _3518717_37 = makeCons(co->gc, x, _3518716_37);
+Obj _3518718_37 = makeCons(co->gc, _3517608_37, _3518717_37);
+Obj _3518719_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518718_37);
+coraReturn(co, _3518719_37);
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4698,258 +4699,258 @@ Obj v = R[1];
 Obj val = R[2];
 R[1] = val;
 R[2] = v;
-saveCont(co, clofun75, 3, R);
+saveCont(co, clofun76, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3517846_37= co->res;
+Obj _3518712_37= co->res;
 Obj v = R[1];
-Obj cur1 = R[2];
+Obj _3517607_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), cur1);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), _3517607_37);
 return;
 }
 case 2:
 {
-Obj _3517841_37= co->res;
+Obj _3518707_37= co->res;
 Obj val = R[1];
-Obj idx = R[2];
+Obj _3517605_37 = R[2];
 Obj v = R[3];
-Obj cur = _3517841_37;
-Obj _3517842_37 = makeCons(co->gc, val, Nil);
-Obj _3517843_37 = makeCons(co->gc, idx, _3517842_37);
-Obj _3517844_37 = makeCons(co->gc, _3517843_37, cur);
-Obj cur1 = _3517844_37;
-Obj _3517845_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
+Obj _3517606_37 = _3518707_37;
+Obj _3518708_37 = makeCons(co->gc, val, Nil);
+Obj _3518709_37 = makeCons(co->gc, _3517605_37, _3518708_37);
+Obj _3518710_37 = makeCons(co->gc, _3518709_37, _3517606_37);
+Obj _3517607_37 = _3518710_37;
+Obj _3518711_37 = PRIM_ADD(_3517605_37, MAKE_NUMBER(1));
 R[1] = v;
-R[2] = cur1;
-saveCont(co, clofun75, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3517845_37);
+R[2] = _3517607_37;
+saveCont(co, clofun76, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3518711_37);
 return;
 }
 case 3:
 {
-Obj _3517840_37= co->res;
+Obj _3518706_37= co->res;
 Obj val = R[1];
 Obj v = R[2];
-Obj idx = _3517840_37;
+Obj _3517605_37 = _3518706_37;
 R[1] = val;
-R[2] = idx;
+R[2] = _3517605_37;
 R[3] = v;
-saveCont(co, clofun75, 2, R);
+saveCont(co, clofun76, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516778_37 = R[1];
-Obj _3516779_37 = R[2];
-Obj _3516780_37 = makeNative(co->gc, 1, clofun73, 0, 2, _3516778_37, _3516779_37);
-Obj _3517791_37 = PRIM_ISCONS(_3516779_37);
-if (True == _3517791_37) {
-Obj _3517792_37 = PRIM_CAR(_3516779_37);
-Obj _3517793_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517792_37);
-if (True == _3517793_37) {
-Obj _3517794_37 = PRIM_CDR(_3516779_37);
-Obj _3517795_37 = PRIM_ISCONS(_3517794_37);
-if (True == _3517795_37) {
-Obj _3517796_37 = PRIM_CDR(_3516779_37);
-Obj _3517797_37 = PRIM_CAR(_3517796_37);
-Obj _3517798_37 = PRIM_ISCONS(_3517797_37);
-if (True == _3517798_37) {
-Obj _3517799_37 = PRIM_CDR(_3516779_37);
-Obj _3517800_37 = PRIM_CAR(_3517799_37);
-Obj _3517801_37 = PRIM_CAR(_3517800_37);
-Obj _3517802_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517801_37);
-if (True == _3517802_37) {
-Obj _3517803_37 = PRIM_CDR(_3516779_37);
-Obj _3517804_37 = PRIM_CAR(_3517803_37);
-Obj _3517805_37 = PRIM_CDR(_3517804_37);
-Obj _3517806_37 = PRIM_ISCONS(_3517805_37);
-if (True == _3517806_37) {
-Obj _3517807_37 = PRIM_CDR(_3516779_37);
-Obj _3517808_37 = PRIM_CAR(_3517807_37);
-Obj _3517809_37 = PRIM_CDR(_3517808_37);
-Obj _3517810_37 = PRIM_CAR(_3517809_37);
-Obj params = _3517810_37;
-Obj _3517811_37 = PRIM_CDR(_3516779_37);
-Obj _3517812_37 = PRIM_CAR(_3517811_37);
-Obj _3517813_37 = PRIM_CDR(_3517812_37);
-Obj _3517814_37 = PRIM_CDR(_3517813_37);
-Obj _3517815_37 = PRIM_ISCONS(_3517814_37);
-if (True == _3517815_37) {
-Obj _3517816_37 = PRIM_CDR(_3516779_37);
-Obj _3517817_37 = PRIM_CAR(_3517816_37);
-Obj _3517818_37 = PRIM_CDR(_3517817_37);
-Obj _3517819_37 = PRIM_CDR(_3517818_37);
-Obj _3517820_37 = PRIM_CAR(_3517819_37);
-Obj body = _3517820_37;
-Obj _3517821_37 = PRIM_CDR(_3516779_37);
-Obj _3517822_37 = PRIM_CAR(_3517821_37);
-Obj _3517823_37 = PRIM_CDR(_3517822_37);
-Obj _3517824_37 = PRIM_CDR(_3517823_37);
-Obj _3517825_37 = PRIM_CDR(_3517824_37);
-Obj _3517826_37 = PRIM_EQ(Nil, _3517825_37);
-if (True == _3517826_37) {
-Obj _3517827_37 = PRIM_CDR(_3516779_37);
-Obj _3517828_37 = PRIM_CDR(_3517827_37);
-Obj fvs = _3517828_37;
-R[1] = _3516778_37;
-R[2] = params;
-R[3] = fvs;
-saveCont(co, clofun74, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3516778_37, body);
+Obj _3517382_37 = R[1];
+Obj _3517383_37 = R[2];
+Obj _3517597_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3517382_37, _3517383_37);
+Obj _3518657_37 = PRIM_ISCONS(_3517383_37);
+if (True == _3518657_37) {
+Obj _3518658_37 = PRIM_CAR(_3517383_37);
+Obj _3518659_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518658_37);
+if (True == _3518659_37) {
+Obj _3518660_37 = PRIM_CDR(_3517383_37);
+Obj _3518661_37 = PRIM_ISCONS(_3518660_37);
+if (True == _3518661_37) {
+Obj _3518662_37 = PRIM_CDR(_3517383_37);
+Obj _3518663_37 = PRIM_CAR(_3518662_37);
+Obj _3518664_37 = PRIM_ISCONS(_3518663_37);
+if (True == _3518664_37) {
+Obj _3518665_37 = PRIM_CDR(_3517383_37);
+Obj _3518666_37 = PRIM_CAR(_3518665_37);
+Obj _3518667_37 = PRIM_CAR(_3518666_37);
+Obj _3518668_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518667_37);
+if (True == _3518668_37) {
+Obj _3518669_37 = PRIM_CDR(_3517383_37);
+Obj _3518670_37 = PRIM_CAR(_3518669_37);
+Obj _3518671_37 = PRIM_CDR(_3518670_37);
+Obj _3518672_37 = PRIM_ISCONS(_3518671_37);
+if (True == _3518672_37) {
+Obj _3518673_37 = PRIM_CDR(_3517383_37);
+Obj _3518674_37 = PRIM_CAR(_3518673_37);
+Obj _3518675_37 = PRIM_CDR(_3518674_37);
+Obj _3518676_37 = PRIM_CAR(_3518675_37);
+Obj _3517598_37 = _3518676_37;
+Obj _3518677_37 = PRIM_CDR(_3517383_37);
+Obj _3518678_37 = PRIM_CAR(_3518677_37);
+Obj _3518679_37 = PRIM_CDR(_3518678_37);
+Obj _3518680_37 = PRIM_CDR(_3518679_37);
+Obj _3518681_37 = PRIM_ISCONS(_3518680_37);
+if (True == _3518681_37) {
+Obj _3518682_37 = PRIM_CDR(_3517383_37);
+Obj _3518683_37 = PRIM_CAR(_3518682_37);
+Obj _3518684_37 = PRIM_CDR(_3518683_37);
+Obj _3518685_37 = PRIM_CDR(_3518684_37);
+Obj _3518686_37 = PRIM_CAR(_3518685_37);
+Obj _3517599_37 = _3518686_37;
+Obj _3518687_37 = PRIM_CDR(_3517383_37);
+Obj _3518688_37 = PRIM_CAR(_3518687_37);
+Obj _3518689_37 = PRIM_CDR(_3518688_37);
+Obj _3518690_37 = PRIM_CDR(_3518689_37);
+Obj _3518691_37 = PRIM_CDR(_3518690_37);
+Obj _3518692_37 = PRIM_EQ(Nil, _3518691_37);
+if (True == _3518692_37) {
+Obj _3518693_37 = PRIM_CDR(_3517383_37);
+Obj _3518694_37 = PRIM_CDR(_3518693_37);
+Obj _3517600_37 = _3518694_37;
+R[1] = _3517382_37;
+R[2] = _3517598_37;
+R[3] = _3517600_37;
+saveCont(co, clofun75, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517382_37, _3517599_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516780_37);
+coraCall0(co, _3517597_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517834_37= co->res;
-Obj nframe = R[1];
-Obj fvs = R[2];
-Obj cur = R[3];
-Obj _3517835_37 = makeCons(co->gc, nframe, fvs);
-Obj _3517836_37 = makeCons(co->gc, _3517834_37, _3517835_37);
-Obj _3517837_37 = makeCons(co->gc, cur, _3517836_37);
-Obj _3517838_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517837_37);
-coraReturn(co, _3517838_37);
+Obj _3518700_37= co->res;
+Obj _3517604_37 = R[1];
+Obj _3517600_37 = R[2];
+Obj _3517602_37 = R[3];
+Obj _3518701_37 = makeCons(co->gc, _3517604_37, _3517600_37);
+Obj _3518702_37 = makeCons(co->gc, _3518700_37, _3518701_37);
+Obj _3518703_37 = makeCons(co->gc, _3517602_37, _3518702_37);
+Obj _3518704_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518703_37);
+coraReturn(co, _3518704_37);
 return;
 }
 case 2:
 {
-Obj _3517833_37= co->res;
-Obj params = R[1];
-Obj nframe = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-R[1] = nframe;
-R[2] = fvs;
-R[3] = cur;
-saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), params);
+Obj _3518699_37= co->res;
+Obj _3517598_37 = R[1];
+Obj _3517604_37 = R[2];
+Obj _3517600_37 = R[3];
+Obj _3517602_37 = R[4];
+R[1] = _3517604_37;
+R[2] = _3517600_37;
+R[3] = _3517602_37;
+saveCont(co, clofun75, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517598_37);
 return;
 }
 case 3:
 {
-Obj _3517832_37= co->res;
-Obj _3516778_37 = R[1];
-Obj body2 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = R[5];
-Obj nframe = _3517832_37;
-R[1] = params;
-R[2] = nframe;
-R[3] = fvs;
-R[4] = cur;
-saveCont(co, clofun74, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3516778_37, body2);
+Obj _3518698_37= co->res;
+Obj _3517382_37 = R[1];
+Obj _3517603_37 = R[2];
+Obj _3517598_37 = R[3];
+Obj _3517600_37 = R[4];
+Obj _3517602_37 = R[5];
+Obj _3517604_37 = _3518698_37;
+R[1] = _3517598_37;
+R[2] = _3517604_37;
+R[3] = _3517600_37;
+R[4] = _3517602_37;
+saveCont(co, clofun75, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517382_37, _3517603_37);
 return;
 }
 case 4:
 {
-Obj _3517831_37= co->res;
-Obj _3516778_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj cur = R[4];
-Obj body2 = _3517831_37;
-R[1] = _3516778_37;
-R[2] = body2;
-R[3] = params;
-R[4] = fvs;
-R[5] = cur;
-saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), body2);
+Obj _3518697_37= co->res;
+Obj _3517382_37 = R[1];
+Obj _3517598_37 = R[2];
+Obj _3517600_37 = R[3];
+Obj _3517602_37 = R[4];
+Obj _3517603_37 = _3518697_37;
+R[1] = _3517382_37;
+R[2] = _3517603_37;
+R[3] = _3517598_37;
+R[4] = _3517600_37;
+R[5] = _3517602_37;
+saveCont(co, clofun75, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), _3517603_37);
 return;
 }
 case 5:
 {
-Obj _3517830_37= co->res;
-Obj body1 = R[1];
-Obj _3516778_37 = R[2];
-Obj params = R[3];
-Obj fvs = R[4];
-Obj cur = _3517830_37;
-R[1] = _3516778_37;
-R[2] = params;
-R[3] = fvs;
-R[4] = cur;
-saveCont(co, clofun74, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), params, body1);
+Obj _3518696_37= co->res;
+Obj _3517601_37 = R[1];
+Obj _3517382_37 = R[2];
+Obj _3517598_37 = R[3];
+Obj _3517600_37 = R[4];
+Obj _3517602_37 = _3518696_37;
+R[1] = _3517382_37;
+R[2] = _3517598_37;
+R[3] = _3517600_37;
+R[4] = _3517602_37;
+saveCont(co, clofun75, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), _3517598_37, _3517601_37);
 return;
 }
 case 6:
 {
-Obj _3517829_37= co->res;
-Obj _3516778_37 = R[1];
-Obj params = R[2];
-Obj fvs = R[3];
-Obj body1 = _3517829_37;
-R[1] = body1;
-R[2] = _3516778_37;
-R[3] = params;
-R[4] = fvs;
-saveCont(co, clofun74, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3516778_37, MAKE_NUMBER(0));
+Obj _3518695_37= co->res;
+Obj _3517382_37 = R[1];
+Obj _3517598_37 = R[2];
+Obj _3517600_37 = R[3];
+Obj _3517601_37 = _3518695_37;
+R[1] = _3517601_37;
+R[2] = _3517382_37;
+R[3] = _3517598_37;
+R[4] = _3517600_37;
+saveCont(co, clofun75, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517382_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517789_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517789_37) {
-saveCont(co, clofun73, 1, R);
+Obj _3518655_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518655_37) {
+saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
@@ -4959,75 +4960,75 @@ return;
 }
 case 1:
 {
-Obj _3517790_37= co->res;
+Obj _3518656_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517790_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518656_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj lam = R[1];
 R[1] = lam;
-saveCont(co, clofun72, 3, R);
+saveCont(co, clofun73, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
 return;
 }
 case 1:
 {
-Obj _3517787_37= co->res;
-Obj _3517786_37 = R[1];
+Obj _3518653_37= co->res;
+Obj _3518652_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun71, 2, 0), _3517786_37, _3517787_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), _3518652_37, _3518653_37);
 return;
 }
 case 2:
 {
-Obj _3517781_37= co->res;
+Obj _3518647_37= co->res;
 Obj lam = R[1];
-Obj nargs = _3517781_37;
-Obj _3517786_37 = PRIM_ADD(nargs, MAKE_NUMBER(1));
-R[1] = _3517786_37;
-saveCont(co, clofun72, 1, R);
+Obj _3517595_37 = _3518647_37;
+Obj _3518652_37 = PRIM_ADD(_3517595_37, MAKE_NUMBER(1));
+R[1] = _3518652_37;
+saveCont(co, clofun73, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
 return;
 }
 case 3:
 {
-Obj _3517780_37= co->res;
+Obj _3518646_37= co->res;
 Obj lam = R[1];
 R[1] = lam;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517780_37);
+saveCont(co, clofun73, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518646_37);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj acc = R[1];
 Obj x = R[2];
 R[1] = acc;
-saveCont(co, clofun71, 2, R);
+saveCont(co, clofun72, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
 return;
 }
 case 1:
 {
-Obj _3517783_37= co->res;
+Obj _3518649_37= co->res;
 Obj acc = R[1];
-Obj _3517784_37 = PRIM_ADD(_3517783_37, MAKE_NUMBER(1));
-Obj len = _3517784_37;
-Obj _3517785_37 = PRIM_GT(len, acc);
-if (True == _3517785_37) {
-coraReturn(co, len);
+Obj _3518650_37 = PRIM_ADD(_3518649_37, MAKE_NUMBER(1));
+Obj _3517596_37 = _3518650_37;
+Obj _3518651_37 = PRIM_GT(_3517596_37, acc);
+if (True == _3518651_37) {
+coraReturn(co, _3517596_37);
 return;
 } else {
 coraReturn(co, acc);
@@ -5036,75 +5037,75 @@ return;
 }
 case 2:
 {
-Obj _3517782_37= co->res;
+Obj _3518648_37= co->res;
 Obj acc = R[1];
 R[1] = acc;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3517782_37);
+saveCont(co, clofun72, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518648_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj params = R[1];
 Obj body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun69, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, params));
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj body1 = R[1];
 Obj conts = R[2];
 R[1] = body1;
-saveCont(co, clofun69, 1, R);
+saveCont(co, clofun70, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
 return;
 }
 case 1:
 {
-Obj _3517775_37= co->res;
+Obj _3518641_37= co->res;
 Obj body1 = R[1];
-Obj _3517776_37 = makeCons(co->gc, body1, _3517775_37);
-Obj _3517777_37 = makeCons(co->gc, closureRef(R[0], 0), _3517776_37);
-Obj _3517778_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517777_37);
-coraReturn(co, _3517778_37);
+Obj _3518642_37 = makeCons(co->gc, body1, _3518641_37);
+Obj _3518643_37 = makeCons(co->gc, closureRef(R[0], 0), _3518642_37);
+Obj _3518644_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518643_37);
+coraReturn(co, _3518644_37);
 return;
 }
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516772_37 = R[1];
-Obj _3516773_37 = R[2];
-Obj _3516774_37 = R[3];
-Obj _3516775_37 = R[4];
-Obj _3517769_37 = PRIM_EQ(Nil, _3516772_37);
-if (True == _3517769_37) {
+Obj _3517376_37 = R[1];
+Obj _3517377_37 = R[2];
+Obj _3517378_37 = R[3];
+Obj _3517379_37 = R[4];
+Obj _3518635_37 = PRIM_EQ(Nil, _3517376_37);
+if (True == _3518635_37) {
 co->ctx.sp = R;
-coraCall2(co, _3516775_37, _3516774_37, _3516773_37);
+coraCall2(co, _3517379_37, _3517378_37, _3517377_37);
 return;
 } else {
-Obj _3517770_37 = PRIM_ISCONS(_3516772_37);
-if (True == _3517770_37) {
-Obj _3517771_37 = PRIM_CAR(_3516772_37);
-Obj f = _3517771_37;
-Obj _3517772_37 = PRIM_CDR(_3516772_37);
-Obj args = _3517772_37;
+Obj _3518636_37 = PRIM_ISCONS(_3517376_37);
+if (True == _3518636_37) {
+Obj _3518637_37 = PRIM_CAR(_3517376_37);
+Obj _3517593_37 = _3518637_37;
+Obj _3518638_37 = PRIM_CDR(_3517376_37);
+Obj _3517594_37 = _3518638_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), f, _3516773_37, makeNative(co->gc, 3, clofun67, 2, 3, args, _3516774_37, _3516775_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517593_37, _3517377_37, makeNative(co->gc, 3, clofun68, 2, 3, _3517594_37, _3517378_37, _3517379_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5116,131 +5117,131 @@ return;
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj f1 = R[1];
 Obj conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun66, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), f1));
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj args1 = R[1];
 Obj conts2 = R[2];
-Obj _3517773_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj _3518639_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517773_37, conts2);
+coraCall2(co, closureRef(R[0], 0), _3518639_37, conts2);
 return;
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516766_37 = R[1];
-Obj _3516767_37 = R[2];
-Obj _3516768_37 = R[3];
-Obj _3516842_37 = makeNative(co->gc, 2, clofun64, 1, 3, _3516766_37, _3516767_37, _3516768_37);
-Obj _3517766_37 = primIsSymbol(_3516766_37);
-if (True == _3517766_37) {
+Obj _3517370_37 = R[1];
+Obj _3517371_37 = R[2];
+Obj _3517372_37 = R[3];
+Obj _3517586_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3517370_37, _3517371_37, _3517372_37);
+Obj _3518632_37 = primIsSymbol(_3517370_37);
+if (True == _3518632_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516842_37, True);
+coraCall1(co, _3517586_37, True);
 return;
 } else {
-R[1] = _3516842_37;
-saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516766_37);
+R[1] = _3517586_37;
+saveCont(co, clofun66, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517370_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517767_37= co->res;
-Obj _3516842_37 = R[1];
-if (True == _3517767_37) {
+Obj _3518633_37= co->res;
+Obj _3517586_37 = R[1];
+if (True == _3518633_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516842_37, True);
+coraCall1(co, _3517586_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516842_37, False);
+coraCall1(co, _3517586_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516843_37 = R[1];
-if (True == _3516843_37) {
+Obj _3517585_37 = R[1];
+if (True == _3517585_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3516770_37 = makeNative(co->gc, 1, clofun62, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517742_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517742_37) {
-Obj _3517743_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517744_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517743_37);
-if (True == _3517744_37) {
-Obj _3517745_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517746_37 = PRIM_ISCONS(_3517745_37);
-if (True == _3517746_37) {
-Obj _3517747_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517748_37 = PRIM_CAR(_3517747_37);
-Obj exp = _3517748_37;
-Obj _3517749_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517750_37 = PRIM_CDR(_3517749_37);
-Obj _3517751_37 = PRIM_ISCONS(_3517750_37);
-if (True == _3517751_37) {
-Obj _3517752_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517753_37 = PRIM_CDR(_3517752_37);
-Obj _3517754_37 = PRIM_CAR(_3517753_37);
-Obj cont = _3517754_37;
-Obj _3517755_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517756_37 = PRIM_CDR(_3517755_37);
-Obj _3517757_37 = PRIM_CDR(_3517756_37);
-Obj _3517758_37 = PRIM_EQ(Nil, _3517757_37);
-if (True == _3517758_37) {
+Obj _3517587_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3518608_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518608_37) {
+Obj _3518609_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518610_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518609_37);
+if (True == _3518610_37) {
+Obj _3518611_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518612_37 = PRIM_ISCONS(_3518611_37);
+if (True == _3518612_37) {
+Obj _3518613_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518614_37 = PRIM_CAR(_3518613_37);
+Obj _3517590_37 = _3518614_37;
+Obj _3518615_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518616_37 = PRIM_CDR(_3518615_37);
+Obj _3518617_37 = PRIM_ISCONS(_3518616_37);
+if (True == _3518617_37) {
+Obj _3518618_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518619_37 = PRIM_CDR(_3518618_37);
+Obj _3518620_37 = PRIM_CAR(_3518619_37);
+Obj _3517591_37 = _3518620_37;
+Obj _3518621_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518622_37 = PRIM_CDR(_3518621_37);
+Obj _3518623_37 = PRIM_CDR(_3518622_37);
+Obj _3518624_37 = PRIM_EQ(Nil, _3518623_37);
+if (True == _3518624_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), cont, closureRef(R[0], 1), makeNative(co->gc, 4, clofun63, 2, 2, closureRef(R[0], 2), exp));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517591_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), _3517590_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516770_37);
+coraCall0(co, _3517587_37);
 return;
 }
 }
@@ -5248,7 +5249,7 @@ return;
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5256,54 +5257,54 @@ Obj cont1 = R[1];
 Obj conts1 = R[2];
 R[1] = cont1;
 R[2] = conts1;
-saveCont(co, clofun63, 2, R);
+saveCont(co, clofun64, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
 return;
 }
 case 1:
 {
-Obj _3517760_37= co->res;
-Obj fvs = R[1];
+Obj _3518626_37= co->res;
+Obj _3517592_37 = R[1];
 Obj cont1 = R[2];
 Obj conts1 = R[3];
-Obj _3517761_37 = PRIM_ADD(_3517760_37, MAKE_NUMBER(1));
-Obj _3517762_37 = makeCons(co->gc, _3517761_37, fvs);
-Obj _3517763_37 = makeCons(co->gc, closureRef(R[0], 1), _3517762_37);
-Obj _3517764_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517763_37);
-Obj _3517765_37 = makeCons(co->gc, cont1, conts1);
+Obj _3518627_37 = PRIM_ADD(_3518626_37, MAKE_NUMBER(1));
+Obj _3518628_37 = makeCons(co->gc, _3518627_37, _3517592_37);
+Obj _3518629_37 = makeCons(co->gc, closureRef(R[0], 1), _3518628_37);
+Obj _3518630_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518629_37);
+Obj _3518631_37 = makeCons(co->gc, cont1, conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3517764_37, _3517765_37);
+coraCall2(co, closureRef(R[0], 0), _3518630_37, _3518631_37);
 return;
 }
 case 2:
 {
-Obj _3517759_37= co->res;
+Obj _3518625_37= co->res;
 Obj cont1 = R[1];
 Obj conts1 = R[2];
-Obj fvs = _3517759_37;
-R[1] = fvs;
+Obj _3517592_37 = _3518625_37;
+R[1] = _3517592_37;
 R[2] = cont1;
 R[3] = conts1;
-saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), conts1);
+saveCont(co, clofun64, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), conts1);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517738_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517738_37) {
-Obj _3517739_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517739_37;
-Obj _3517740_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517740_37;
-Obj _3517741_37 = makeCons(co->gc, f, args);
+Obj _3518604_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518604_37) {
+Obj _3518605_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517588_37 = _3518605_37;
+Obj _3518606_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517589_37 = _3518606_37;
+Obj _3518607_37 = makeCons(co->gc, _3517588_37, _3517589_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3517741_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3518607_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5314,94 +5315,94 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516758_37 = R[1];
-Obj _3516759_37 = R[2];
-R[1] = _3516759_37;
-R[2] = _3516758_37;
-saveCont(co, clofun61, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516759_37);
+Obj _3517362_37 = R[1];
+Obj _3517363_37 = R[2];
+R[1] = _3517363_37;
+R[2] = _3517362_37;
+saveCont(co, clofun62, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517363_37);
 return;
 }
 case 1:
 {
-Obj _3517733_37= co->res;
-Obj args = R[1];
-Obj _3517734_37 = makeCons(co->gc, _3517733_37, Nil);
-Obj _3517735_37 = makeCons(co->gc, args, _3517734_37);
-Obj _3517736_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517735_37);
-coraReturn(co, _3517736_37);
+Obj _3518599_37= co->res;
+Obj _3517582_37 = R[1];
+Obj _3518600_37 = makeCons(co->gc, _3518599_37, Nil);
+Obj _3518601_37 = makeCons(co->gc, _3517582_37, _3518600_37);
+Obj _3518602_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518601_37);
+coraReturn(co, _3518602_37);
 return;
 }
 case 2:
 {
-Obj _3517661_37= co->res;
-Obj _3516759_37 = R[1];
-Obj _3516758_37 = R[2];
-if (True == _3517661_37) {
-coraReturn(co, _3516759_37);
+Obj _3518527_37= co->res;
+Obj _3517363_37 = R[1];
+Obj _3517362_37 = R[2];
+if (True == _3518527_37) {
+coraReturn(co, _3517363_37);
 return;
 } else {
-Obj _3517662_37 = primIsSymbol(_3516759_37);
-if (True == _3517662_37) {
-coraReturn(co, _3516759_37);
+Obj _3518528_37 = primIsSymbol(_3517363_37);
+if (True == _3518528_37) {
+coraReturn(co, _3517363_37);
 return;
 } else {
-Obj _3516762_37 = makeNative(co->gc, 4, clofun60, 0, 2, _3516759_37, _3516758_37);
-Obj _3517716_37 = PRIM_ISCONS(_3516759_37);
-if (True == _3517716_37) {
-Obj _3517717_37 = PRIM_CAR(_3516759_37);
-Obj _3517718_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517717_37);
-if (True == _3517718_37) {
-Obj _3517719_37 = PRIM_CDR(_3516759_37);
-Obj _3517720_37 = PRIM_ISCONS(_3517719_37);
-if (True == _3517720_37) {
-Obj _3517721_37 = PRIM_CDR(_3516759_37);
-Obj _3517722_37 = PRIM_CAR(_3517721_37);
-Obj args = _3517722_37;
-Obj _3517723_37 = PRIM_CDR(_3516759_37);
-Obj _3517724_37 = PRIM_CDR(_3517723_37);
-Obj _3517725_37 = PRIM_ISCONS(_3517724_37);
-if (True == _3517725_37) {
-Obj _3517726_37 = PRIM_CDR(_3516759_37);
-Obj _3517727_37 = PRIM_CDR(_3517726_37);
-Obj _3517728_37 = PRIM_CAR(_3517727_37);
-Obj body = _3517728_37;
-Obj _3517729_37 = PRIM_CDR(_3516759_37);
-Obj _3517730_37 = PRIM_CDR(_3517729_37);
-Obj _3517731_37 = PRIM_CDR(_3517730_37);
-Obj _3517732_37 = PRIM_EQ(Nil, _3517731_37);
-if (True == _3517732_37) {
-R[1] = args;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3516758_37, body);
+Obj _3517571_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3517363_37, _3517362_37);
+Obj _3518582_37 = PRIM_ISCONS(_3517363_37);
+if (True == _3518582_37) {
+Obj _3518583_37 = PRIM_CAR(_3517363_37);
+Obj _3518584_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518583_37);
+if (True == _3518584_37) {
+Obj _3518585_37 = PRIM_CDR(_3517363_37);
+Obj _3518586_37 = PRIM_ISCONS(_3518585_37);
+if (True == _3518586_37) {
+Obj _3518587_37 = PRIM_CDR(_3517363_37);
+Obj _3518588_37 = PRIM_CAR(_3518587_37);
+Obj _3517582_37 = _3518588_37;
+Obj _3518589_37 = PRIM_CDR(_3517363_37);
+Obj _3518590_37 = PRIM_CDR(_3518589_37);
+Obj _3518591_37 = PRIM_ISCONS(_3518590_37);
+if (True == _3518591_37) {
+Obj _3518592_37 = PRIM_CDR(_3517363_37);
+Obj _3518593_37 = PRIM_CDR(_3518592_37);
+Obj _3518594_37 = PRIM_CAR(_3518593_37);
+Obj _3517583_37 = _3518594_37;
+Obj _3518595_37 = PRIM_CDR(_3517363_37);
+Obj _3518596_37 = PRIM_CDR(_3518595_37);
+Obj _3518597_37 = PRIM_CDR(_3518596_37);
+Obj _3518598_37 = PRIM_EQ(Nil, _3518597_37);
+if (True == _3518598_37) {
+R[1] = _3517582_37;
+saveCont(co, clofun62, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517362_37, _3517583_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3517571_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516762_37);
+coraCall0(co, _3517571_37);
 return;
 }
 }
@@ -5410,235 +5411,235 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516763_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517691_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517691_37) {
-Obj _3517692_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517693_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517692_37);
-if (True == _3517693_37) {
-Obj _3517694_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517695_37 = PRIM_ISCONS(_3517694_37);
-if (True == _3517695_37) {
-Obj _3517696_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517697_37 = PRIM_CAR(_3517696_37);
-Obj val = _3517697_37;
-Obj _3517698_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517699_37 = PRIM_CDR(_3517698_37);
-Obj _3517700_37 = PRIM_ISCONS(_3517699_37);
-if (True == _3517700_37) {
-Obj _3517701_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517702_37 = PRIM_CDR(_3517701_37);
-Obj _3517703_37 = PRIM_CAR(_3517702_37);
-Obj body = _3517703_37;
-Obj _3517704_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517705_37 = PRIM_CDR(_3517704_37);
-Obj _3517706_37 = PRIM_CDR(_3517705_37);
-Obj _3517707_37 = PRIM_EQ(Nil, _3517706_37);
-if (True == _3517707_37) {
-R[1] = body;
-R[2] = val;
-saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+Obj _3517572_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518557_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518557_37) {
+Obj _3518558_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518559_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518558_37);
+if (True == _3518559_37) {
+Obj _3518560_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518561_37 = PRIM_ISCONS(_3518560_37);
+if (True == _3518561_37) {
+Obj _3518562_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518563_37 = PRIM_CAR(_3518562_37);
+Obj _3517578_37 = _3518563_37;
+Obj _3518564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518565_37 = PRIM_CDR(_3518564_37);
+Obj _3518566_37 = PRIM_ISCONS(_3518565_37);
+if (True == _3518566_37) {
+Obj _3518567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518568_37 = PRIM_CDR(_3518567_37);
+Obj _3518569_37 = PRIM_CAR(_3518568_37);
+Obj _3517579_37 = _3518569_37;
+Obj _3518570_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518571_37 = PRIM_CDR(_3518570_37);
+Obj _3518572_37 = PRIM_CDR(_3518571_37);
+Obj _3518573_37 = PRIM_EQ(Nil, _3518572_37);
+if (True == _3518573_37) {
+R[1] = _3517579_37;
+R[2] = _3517578_37;
+saveCont(co, clofun61, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517579_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516763_37);
+coraCall0(co, _3517572_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517712_37= co->res;
-Obj fvs2 = R[1];
-Obj val = R[2];
-Obj _3517713_37 = makeCons(co->gc, _3517712_37, fvs2);
-Obj _3517714_37 = makeCons(co->gc, val, _3517713_37);
-Obj _3517715_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3517714_37);
-coraReturn(co, _3517715_37);
+Obj _3518578_37= co->res;
+Obj _3517581_37 = R[1];
+Obj _3517578_37 = R[2];
+Obj _3518579_37 = makeCons(co->gc, _3518578_37, _3517581_37);
+Obj _3518580_37 = makeCons(co->gc, _3517578_37, _3518579_37);
+Obj _3518581_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3518580_37);
+coraReturn(co, _3518581_37);
 return;
 }
 case 2:
 {
-Obj _3517711_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-Obj fvs2 = _3517711_37;
-R[1] = fvs2;
-R[2] = val;
-saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), fvs1, body);
+Obj _3518577_37= co->res;
+Obj _3517580_37 = R[1];
+Obj _3517579_37 = R[2];
+Obj _3517578_37 = R[3];
+Obj _3517581_37 = _3518577_37;
+R[1] = _3517581_37;
+R[2] = _3517578_37;
+saveCont(co, clofun61, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517580_37, _3517579_37);
 return;
 }
 case 3:
 {
-Obj _3517710_37= co->res;
-Obj fvs1 = R[1];
-Obj body = R[2];
-Obj val = R[3];
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517710_37, fvs1);
+Obj _3518576_37= co->res;
+Obj _3517580_37 = R[1];
+Obj _3517579_37 = R[2];
+Obj _3517578_37 = R[3];
+R[1] = _3517580_37;
+R[2] = _3517579_37;
+R[3] = _3517578_37;
+saveCont(co, clofun61, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518576_37, _3517580_37);
 return;
 }
 case 4:
 {
-Obj _3517709_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-Obj fvs1 = _3517709_37;
-R[1] = fvs1;
-R[2] = body;
-R[3] = val;
-saveCont(co, clofun60, 3, R);
+Obj _3518575_37= co->res;
+Obj _3517579_37 = R[1];
+Obj _3517578_37 = R[2];
+Obj _3517580_37 = _3518575_37;
+R[1] = _3517580_37;
+R[2] = _3517579_37;
+R[3] = _3517578_37;
+saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3517708_37= co->res;
-Obj body = R[1];
-Obj val = R[2];
-R[1] = body;
-R[2] = val;
-saveCont(co, clofun60, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517708_37, val);
+Obj _3518574_37= co->res;
+Obj _3517579_37 = R[1];
+Obj _3517578_37 = R[2];
+R[1] = _3517579_37;
+R[2] = _3517578_37;
+saveCont(co, clofun61, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518574_37, _3517578_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516764_37 = makeNative(co->gc, 3, clofun58, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517668_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517668_37) {
-Obj _3517669_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517670_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517669_37);
-if (True == _3517670_37) {
-Obj _3517671_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517672_37 = PRIM_ISCONS(_3517671_37);
-if (True == _3517672_37) {
-Obj _3517673_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517674_37 = PRIM_CAR(_3517673_37);
-Obj exp = _3517674_37;
-Obj _3517675_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517676_37 = PRIM_CDR(_3517675_37);
-Obj _3517677_37 = PRIM_ISCONS(_3517676_37);
-if (True == _3517677_37) {
-Obj _3517678_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517679_37 = PRIM_CDR(_3517678_37);
-Obj _3517680_37 = PRIM_CAR(_3517679_37);
-Obj cont = _3517680_37;
-Obj _3517681_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517682_37 = PRIM_CDR(_3517681_37);
-Obj _3517683_37 = PRIM_CDR(_3517682_37);
-Obj _3517684_37 = PRIM_EQ(Nil, _3517683_37);
-if (True == _3517684_37) {
-R[1] = exp;
-R[2] = cont;
-saveCont(co, clofun59, 3, R);
+Obj _3517573_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518534_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518534_37) {
+Obj _3518535_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518536_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518535_37);
+if (True == _3518536_37) {
+Obj _3518537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518538_37 = PRIM_ISCONS(_3518537_37);
+if (True == _3518538_37) {
+Obj _3518539_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518540_37 = PRIM_CAR(_3518539_37);
+Obj _3517576_37 = _3518540_37;
+Obj _3518541_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518542_37 = PRIM_CDR(_3518541_37);
+Obj _3518543_37 = PRIM_ISCONS(_3518542_37);
+if (True == _3518543_37) {
+Obj _3518544_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518545_37 = PRIM_CDR(_3518544_37);
+Obj _3518546_37 = PRIM_CAR(_3518545_37);
+Obj _3517577_37 = _3518546_37;
+Obj _3518547_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518548_37 = PRIM_CDR(_3518547_37);
+Obj _3518549_37 = PRIM_CDR(_3518548_37);
+Obj _3518550_37 = PRIM_EQ(Nil, _3518549_37);
+if (True == _3518550_37) {
+R[1] = _3517576_37;
+R[2] = _3517577_37;
+saveCont(co, clofun60, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516764_37);
+coraCall0(co, _3517573_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517687_37= co->res;
-Obj _3517686_37 = R[1];
-Obj _3517688_37 = makeCons(co->gc, _3517687_37, Nil);
-Obj _3517689_37 = makeCons(co->gc, _3517686_37, _3517688_37);
-Obj _3517690_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517689_37);
-coraReturn(co, _3517690_37);
+Obj _3518553_37= co->res;
+Obj _3518552_37 = R[1];
+Obj _3518554_37 = makeCons(co->gc, _3518553_37, Nil);
+Obj _3518555_37 = makeCons(co->gc, _3518552_37, _3518554_37);
+Obj _3518556_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518555_37);
+coraReturn(co, _3518556_37);
 return;
 }
 case 2:
 {
-Obj _3517686_37= co->res;
-Obj cont = R[1];
-R[1] = _3517686_37;
-saveCont(co, clofun59, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), cont);
+Obj _3518552_37= co->res;
+Obj _3517577_37 = R[1];
+R[1] = _3518552_37;
+saveCont(co, clofun60, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), _3517577_37);
 return;
 }
 case 3:
 {
-Obj _3517685_37= co->res;
-Obj exp = R[1];
-Obj cont = R[2];
-R[1] = cont;
-saveCont(co, clofun59, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517685_37, exp);
+Obj _3518551_37= co->res;
+Obj _3517576_37 = R[1];
+Obj _3517577_37 = R[2];
+R[1] = _3517577_37;
+saveCont(co, clofun60, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518551_37, _3517576_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517663_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517663_37) {
-Obj _3517664_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517664_37;
-Obj _3517665_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517665_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun58, 1, R);
+Obj _3518529_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518529_37) {
+Obj _3518530_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517574_37 = _3518530_37;
+Obj _3518531_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517575_37 = _3518531_37;
+R[1] = _3517574_37;
+R[2] = _3517575_37;
+saveCont(co, clofun59, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
@@ -5649,39 +5650,39 @@ return;
 }
 case 1:
 {
-Obj _3517666_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517667_37 = makeCons(co->gc, f, args);
+Obj _3518532_37= co->res;
+Obj _3517574_37 = R[1];
+Obj _3517575_37 = R[2];
+Obj _3518533_37 = makeCons(co->gc, _3517574_37, _3517575_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517666_37, _3517667_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518532_37, _3518533_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516753_37 = R[1];
-Obj _3516754_37 = R[2];
-Obj _3516755_37 = R[3];
-Obj _3517638_37 = PRIM_EQ(Nil, _3516753_37);
-if (True == _3517638_37) {
-R[1] = _3516755_37;
-saveCont(co, clofun57, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3516754_37);
+Obj _3517357_37 = R[1];
+Obj _3517358_37 = R[2];
+Obj _3517359_37 = R[3];
+Obj _3518504_37 = PRIM_EQ(Nil, _3517357_37);
+if (True == _3518504_37) {
+R[1] = _3517359_37;
+saveCont(co, clofun58, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517358_37);
 return;
 } else {
-Obj _3517656_37 = PRIM_ISCONS(_3516753_37);
-if (True == _3517656_37) {
-Obj _3517657_37 = PRIM_CAR(_3516753_37);
-Obj hd = _3517657_37;
-Obj _3517658_37 = PRIM_CDR(_3516753_37);
-Obj tl = _3517658_37;
+Obj _3518522_37 = PRIM_ISCONS(_3517357_37);
+if (True == _3518522_37) {
+Obj _3518523_37 = PRIM_CAR(_3517357_37);
+Obj _3517569_37 = _3518523_37;
+Obj _3518524_37 = PRIM_CDR(_3517357_37);
+Obj _3517570_37 = _3518524_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), hd, makeNative(co->gc, 2, clofun56, 1, 3, tl, _3516754_37, _3516755_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517569_37, makeNative(co->gc, 2, clofun57, 1, 3, _3517570_37, _3517358_37, _3517359_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5692,232 +5693,232 @@ return;
 }
 case 1:
 {
-Obj _3517654_37= co->res;
-Obj _3516840_37 = R[1];
-Obj _3517655_37 = PRIM_EQ(_3517654_37, getBinding(co, packageID, 90).name);
-if (True == _3517655_37) {
+Obj _3518520_37= co->res;
+Obj _3517567_37 = R[1];
+Obj _3518521_37 = PRIM_EQ(_3518520_37, getBinding(co, packageID, 91).name);
+if (True == _3518521_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, True);
+coraCall1(co, _3517567_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, False);
+coraCall1(co, _3517567_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517653_37= co->res;
-Obj exp = R[1];
-Obj _3516840_37 = R[2];
-if (True == _3517653_37) {
-R[1] = _3516840_37;
-saveCont(co, clofun57, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), exp);
+Obj _3518519_37= co->res;
+Obj _3517564_37 = R[1];
+Obj _3517567_37 = R[2];
+if (True == _3518519_37) {
+R[1] = _3517567_37;
+saveCont(co, clofun58, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), _3517564_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516840_37, False);
+coraCall1(co, _3517567_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3517639_37= co->res;
-Obj _3516755_37 = R[1];
-Obj exp = _3517639_37;
-Obj _3516840_37 = makeNative(co->gc, 2, clofun55, 1, 2, exp, _3516755_37);
-Obj _3517652_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3516840_37;
-saveCont(co, clofun57, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517652_37);
+Obj _3518505_37= co->res;
+Obj _3517359_37 = R[1];
+Obj _3517564_37 = _3518505_37;
+Obj _3517567_37 = makeNative(co->gc, 2, clofun56, 1, 2, _3517564_37, _3517359_37);
+Obj _3518518_37 = PRIM_CAR(_3517564_37);
+R[1] = _3517564_37;
+R[2] = _3517567_37;
+saveCont(co, clofun58, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3518518_37);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj hd1 = R[1];
-Obj _3517659_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj _3518525_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3517659_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3518525_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516841_37 = R[1];
-if (True == _3516841_37) {
+Obj _3517566_37 = R[1];
+if (True == _3517566_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517640_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3517640_37) {
-Obj _3517641_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517642_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3517641_37);
-coraReturn(co, _3517642_37);
+Obj _3518506_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == _3518506_37) {
+Obj _3518507_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3518508_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3518507_37);
+coraReturn(co, _3518508_37);
 return;
 } else {
-Obj _3517643_37 = primGenSym(co);
-Obj val = _3517643_37;
-Obj _3517644_37 = makeCons(co->gc, val, Nil);
-R[1] = _3517644_37;
-saveCont(co, clofun55, 1, R);
-coraCall1(co, closureRef(R[0], 1), val);
+Obj _3518509_37 = primGenSym(co);
+Obj _3517568_37 = _3518509_37;
+Obj _3518510_37 = makeCons(co->gc, _3517568_37, Nil);
+R[1] = _3518510_37;
+saveCont(co, clofun56, 1, R);
+coraCall1(co, closureRef(R[0], 1), _3517568_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517645_37= co->res;
-Obj _3517644_37 = R[1];
-Obj _3517646_37 = makeCons(co->gc, _3517645_37, Nil);
-Obj _3517647_37 = makeCons(co->gc, _3517644_37, _3517646_37);
-Obj _3517648_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3517647_37);
-Obj _3517649_37 = makeCons(co->gc, _3517648_37, Nil);
-Obj _3517650_37 = makeCons(co->gc, closureRef(R[0], 0), _3517649_37);
-Obj _3517651_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3517650_37);
-coraReturn(co, _3517651_37);
+Obj _3518511_37= co->res;
+Obj _3518510_37 = R[1];
+Obj _3518512_37 = makeCons(co->gc, _3518511_37, Nil);
+Obj _3518513_37 = makeCons(co->gc, _3518510_37, _3518512_37);
+Obj _3518514_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3518513_37);
+Obj _3518515_37 = makeCons(co->gc, _3518514_37, Nil);
+Obj _3518516_37 = makeCons(co->gc, closureRef(R[0], 0), _3518515_37);
+Obj _3518517_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518516_37);
+coraReturn(co, _3518517_37);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516744_37 = R[1];
-Obj _3516745_37 = R[2];
-Obj _3516838_37 = makeNative(co->gc, 2, clofun53, 1, 2, _3516744_37, _3516745_37);
-Obj _3517635_37 = primIsSymbol(_3516744_37);
-if (True == _3517635_37) {
+Obj _3517348_37 = R[1];
+Obj _3517349_37 = R[2];
+Obj _3517546_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3517348_37, _3517349_37);
+Obj _3518501_37 = primIsSymbol(_3517348_37);
+if (True == _3518501_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516838_37, True);
+coraCall1(co, _3517546_37, True);
 return;
 } else {
-R[1] = _3516838_37;
-saveCont(co, clofun54, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516744_37);
+R[1] = _3517546_37;
+saveCont(co, clofun55, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517348_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517636_37= co->res;
-Obj _3516838_37 = R[1];
-if (True == _3517636_37) {
+Obj _3518502_37= co->res;
+Obj _3517546_37 = R[1];
+if (True == _3518502_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516838_37, True);
+coraCall1(co, _3517546_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516838_37, False);
+coraCall1(co, _3517546_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516839_37 = R[1];
-if (True == _3516839_37) {
+Obj _3517545_37 = R[1];
+if (True == _3517545_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun53, 1, R);
+saveCont(co, clofun54, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj _3517501_37= co->res;
-if (True == _3517501_37) {
+Obj _3518367_37= co->res;
+if (True == _3518367_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3516748_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517603_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517603_37) {
-Obj _3517604_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517605_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517604_37);
-if (True == _3517605_37) {
-Obj _3517606_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517607_37 = PRIM_ISCONS(_3517606_37);
-if (True == _3517607_37) {
-Obj _3517608_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517609_37 = PRIM_CAR(_3517608_37);
-Obj a = _3517609_37;
-Obj _3517610_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517611_37 = PRIM_CDR(_3517610_37);
-Obj _3517612_37 = PRIM_ISCONS(_3517611_37);
-if (True == _3517612_37) {
-Obj _3517613_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517614_37 = PRIM_CDR(_3517613_37);
-Obj _3517615_37 = PRIM_CAR(_3517614_37);
-Obj b = _3517615_37;
-Obj _3517616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517617_37 = PRIM_CDR(_3517616_37);
-Obj _3517618_37 = PRIM_CDR(_3517617_37);
-Obj _3517619_37 = PRIM_ISCONS(_3517618_37);
-if (True == _3517619_37) {
-Obj _3517620_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517621_37 = PRIM_CDR(_3517620_37);
-Obj _3517622_37 = PRIM_CDR(_3517621_37);
-Obj _3517623_37 = PRIM_CAR(_3517622_37);
-Obj c = _3517623_37;
-Obj _3517624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517625_37 = PRIM_CDR(_3517624_37);
-Obj _3517626_37 = PRIM_CDR(_3517625_37);
-Obj _3517627_37 = PRIM_CDR(_3517626_37);
-Obj _3517628_37 = PRIM_EQ(Nil, _3517627_37);
-if (True == _3517628_37) {
+Obj _3517547_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518469_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518469_37) {
+Obj _3518470_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518471_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518470_37);
+if (True == _3518471_37) {
+Obj _3518472_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518473_37 = PRIM_ISCONS(_3518472_37);
+if (True == _3518473_37) {
+Obj _3518474_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518475_37 = PRIM_CAR(_3518474_37);
+Obj _3517561_37 = _3518475_37;
+Obj _3518476_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518477_37 = PRIM_CDR(_3518476_37);
+Obj _3518478_37 = PRIM_ISCONS(_3518477_37);
+if (True == _3518478_37) {
+Obj _3518479_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518480_37 = PRIM_CDR(_3518479_37);
+Obj _3518481_37 = PRIM_CAR(_3518480_37);
+Obj _3517562_37 = _3518481_37;
+Obj _3518482_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518483_37 = PRIM_CDR(_3518482_37);
+Obj _3518484_37 = PRIM_CDR(_3518483_37);
+Obj _3518485_37 = PRIM_ISCONS(_3518484_37);
+if (True == _3518485_37) {
+Obj _3518486_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518487_37 = PRIM_CDR(_3518486_37);
+Obj _3518488_37 = PRIM_CDR(_3518487_37);
+Obj _3518489_37 = PRIM_CAR(_3518488_37);
+Obj _3517563_37 = _3518489_37;
+Obj _3518490_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518491_37 = PRIM_CDR(_3518490_37);
+Obj _3518492_37 = PRIM_CDR(_3518491_37);
+Obj _3518493_37 = PRIM_CDR(_3518492_37);
+Obj _3518494_37 = PRIM_EQ(Nil, _3518493_37);
+if (True == _3518494_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 3, clofun52, 1, 3, b, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517561_37, makeNative(co->gc, 3, clofun53, 1, 3, _3517562_37, _3517563_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517547_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517547_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517547_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517547_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517547_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516748_37);
+coraCall0(co, _3517547_37);
 return;
 }
 }
@@ -5925,363 +5926,363 @@ return;
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj ra = R[1];
 R[1] = ra;
-saveCont(co, clofun52, 2, R);
+saveCont(co, clofun53, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517630_37= co->res;
-Obj _3517629_37 = R[1];
+Obj _3518496_37= co->res;
+Obj _3518495_37 = R[1];
 Obj ra = R[2];
-Obj _3517631_37 = makeCons(co->gc, _3517630_37, Nil);
-Obj _3517632_37 = makeCons(co->gc, _3517629_37, _3517631_37);
-Obj _3517633_37 = makeCons(co->gc, ra, _3517632_37);
-Obj _3517634_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517633_37);
-coraReturn(co, _3517634_37);
+Obj _3518497_37 = makeCons(co->gc, _3518496_37, Nil);
+Obj _3518498_37 = makeCons(co->gc, _3518495_37, _3518497_37);
+Obj _3518499_37 = makeCons(co->gc, ra, _3518498_37);
+Obj _3518500_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518499_37);
+coraReturn(co, _3518500_37);
 return;
 }
 case 2:
 {
-Obj _3517629_37= co->res;
+Obj _3518495_37= co->res;
 Obj ra = R[1];
-R[1] = _3517629_37;
+R[1] = _3518495_37;
 R[2] = ra;
-saveCont(co, clofun52, 1, R);
+saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516749_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517581_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517581_37) {
-Obj _3517582_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517583_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517582_37);
-if (True == _3517583_37) {
-Obj _3517584_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517585_37 = PRIM_ISCONS(_3517584_37);
-if (True == _3517585_37) {
-Obj _3517586_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517587_37 = PRIM_CAR(_3517586_37);
-Obj a = _3517587_37;
-Obj _3517588_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517589_37 = PRIM_CDR(_3517588_37);
-Obj _3517590_37 = PRIM_ISCONS(_3517589_37);
-if (True == _3517590_37) {
-Obj _3517591_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517592_37 = PRIM_CDR(_3517591_37);
-Obj _3517593_37 = PRIM_CAR(_3517592_37);
-Obj b = _3517593_37;
-Obj _3517594_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517595_37 = PRIM_CDR(_3517594_37);
-Obj _3517596_37 = PRIM_CDR(_3517595_37);
-Obj _3517597_37 = PRIM_EQ(Nil, _3517596_37);
-if (True == _3517597_37) {
+Obj _3517548_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518447_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518447_37) {
+Obj _3518448_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518449_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518448_37);
+if (True == _3518449_37) {
+Obj _3518450_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518451_37 = PRIM_ISCONS(_3518450_37);
+if (True == _3518451_37) {
+Obj _3518452_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518453_37 = PRIM_CAR(_3518452_37);
+Obj _3517559_37 = _3518453_37;
+Obj _3518454_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518455_37 = PRIM_CDR(_3518454_37);
+Obj _3518456_37 = PRIM_ISCONS(_3518455_37);
+if (True == _3518456_37) {
+Obj _3518457_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518458_37 = PRIM_CDR(_3518457_37);
+Obj _3518459_37 = PRIM_CAR(_3518458_37);
+Obj _3517560_37 = _3518459_37;
+Obj _3518460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518461_37 = PRIM_CDR(_3518460_37);
+Obj _3518462_37 = PRIM_CDR(_3518461_37);
+Obj _3518463_37 = PRIM_EQ(Nil, _3518462_37);
+if (True == _3518463_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), a, makeNative(co->gc, 2, clofun50, 1, 2, b, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517559_37, makeNative(co->gc, 2, clofun51, 1, 2, _3517560_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517548_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517548_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517548_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517548_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516749_37);
+coraCall0(co, _3517548_37);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj ra = R[1];
-Obj _3517598_37 = primIsSymbol(ra);
-if (True == _3517598_37) {
+Obj _3518464_37 = primIsSymbol(ra);
+if (True == _3518464_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = ra;
-saveCont(co, clofun50, 1, R);
+saveCont(co, clofun51, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj _3517599_37= co->res;
+Obj _3518465_37= co->res;
 Obj ra = R[1];
-Obj _3517600_37 = makeCons(co->gc, _3517599_37, Nil);
-Obj _3517601_37 = makeCons(co->gc, ra, _3517600_37);
-Obj _3517602_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517601_37);
-coraReturn(co, _3517602_37);
+Obj _3518466_37 = makeCons(co->gc, _3518465_37, Nil);
+Obj _3518467_37 = makeCons(co->gc, ra, _3518466_37);
+Obj _3518468_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3518467_37);
+coraReturn(co, _3518468_37);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516750_37 = makeNative(co->gc, 3, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517550_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517550_37) {
-Obj _3517551_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517552_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517551_37);
-if (True == _3517552_37) {
-Obj _3517553_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517554_37 = PRIM_ISCONS(_3517553_37);
-if (True == _3517554_37) {
-Obj _3517555_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517556_37 = PRIM_CAR(_3517555_37);
-Obj a = _3517556_37;
-Obj _3517557_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517558_37 = PRIM_CDR(_3517557_37);
-Obj _3517559_37 = PRIM_ISCONS(_3517558_37);
-if (True == _3517559_37) {
-Obj _3517560_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517561_37 = PRIM_CDR(_3517560_37);
-Obj _3517562_37 = PRIM_CAR(_3517561_37);
-Obj b = _3517562_37;
-Obj _3517563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517564_37 = PRIM_CDR(_3517563_37);
-Obj _3517565_37 = PRIM_CDR(_3517564_37);
-Obj _3517566_37 = PRIM_ISCONS(_3517565_37);
-if (True == _3517566_37) {
-Obj _3517567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517568_37 = PRIM_CDR(_3517567_37);
-Obj _3517569_37 = PRIM_CDR(_3517568_37);
-Obj _3517570_37 = PRIM_CAR(_3517569_37);
-Obj c = _3517570_37;
-Obj _3517571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517572_37 = PRIM_CDR(_3517571_37);
-Obj _3517573_37 = PRIM_CDR(_3517572_37);
-Obj _3517574_37 = PRIM_CDR(_3517573_37);
-Obj _3517575_37 = PRIM_EQ(Nil, _3517574_37);
-if (True == _3517575_37) {
+Obj _3517549_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518416_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518416_37) {
+Obj _3518417_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518418_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518417_37);
+if (True == _3518418_37) {
+Obj _3518419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518420_37 = PRIM_ISCONS(_3518419_37);
+if (True == _3518420_37) {
+Obj _3518421_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518422_37 = PRIM_CAR(_3518421_37);
+Obj _3517556_37 = _3518422_37;
+Obj _3518423_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518424_37 = PRIM_CDR(_3518423_37);
+Obj _3518425_37 = PRIM_ISCONS(_3518424_37);
+if (True == _3518425_37) {
+Obj _3518426_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518427_37 = PRIM_CDR(_3518426_37);
+Obj _3518428_37 = PRIM_CAR(_3518427_37);
+Obj _3517557_37 = _3518428_37;
+Obj _3518429_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518430_37 = PRIM_CDR(_3518429_37);
+Obj _3518431_37 = PRIM_CDR(_3518430_37);
+Obj _3518432_37 = PRIM_ISCONS(_3518431_37);
+if (True == _3518432_37) {
+Obj _3518433_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518434_37 = PRIM_CDR(_3518433_37);
+Obj _3518435_37 = PRIM_CDR(_3518434_37);
+Obj _3518436_37 = PRIM_CAR(_3518435_37);
+Obj _3517558_37 = _3518436_37;
+Obj _3518437_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518438_37 = PRIM_CDR(_3518437_37);
+Obj _3518439_37 = PRIM_CDR(_3518438_37);
+Obj _3518440_37 = PRIM_CDR(_3518439_37);
+Obj _3518441_37 = PRIM_EQ(Nil, _3518440_37);
+if (True == _3518441_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), b, makeNative(co->gc, 2, clofun48, 1, 3, a, c, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517557_37, makeNative(co->gc, 2, clofun49, 1, 3, _3517556_37, _3517558_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517549_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517549_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517549_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517549_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517549_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516750_37);
+coraCall0(co, _3517549_37);
 return;
 }
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj rb = R[1];
 R[1] = rb;
-saveCont(co, clofun48, 1, R);
+saveCont(co, clofun49, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3517576_37= co->res;
+Obj _3518442_37= co->res;
 Obj rb = R[1];
-Obj _3517577_37 = makeCons(co->gc, _3517576_37, Nil);
-Obj _3517578_37 = makeCons(co->gc, rb, _3517577_37);
-Obj _3517579_37 = makeCons(co->gc, closureRef(R[0], 0), _3517578_37);
-Obj _3517580_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517579_37);
-coraReturn(co, _3517580_37);
+Obj _3518443_37 = makeCons(co->gc, _3518442_37, Nil);
+Obj _3518444_37 = makeCons(co->gc, rb, _3518443_37);
+Obj _3518445_37 = makeCons(co->gc, closureRef(R[0], 0), _3518444_37);
+Obj _3518446_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518445_37);
+coraReturn(co, _3518446_37);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516751_37 = makeNative(co->gc, 1, clofun46, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517506_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517506_37) {
-Obj _3517507_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517508_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517507_37);
-if (True == _3517508_37) {
-Obj _3517509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517510_37 = PRIM_ISCONS(_3517509_37);
-if (True == _3517510_37) {
-Obj _3517511_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517512_37 = PRIM_CAR(_3517511_37);
-Obj _3517513_37 = PRIM_ISCONS(_3517512_37);
-if (True == _3517513_37) {
-Obj _3517514_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517515_37 = PRIM_CAR(_3517514_37);
-Obj _3517516_37 = PRIM_CAR(_3517515_37);
-Obj _3517517_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517516_37);
-if (True == _3517517_37) {
-Obj _3517518_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517519_37 = PRIM_CAR(_3517518_37);
-Obj _3517520_37 = PRIM_CDR(_3517519_37);
-Obj _3517521_37 = PRIM_ISCONS(_3517520_37);
-if (True == _3517521_37) {
-Obj _3517522_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517523_37 = PRIM_CAR(_3517522_37);
-Obj _3517524_37 = PRIM_CDR(_3517523_37);
-Obj _3517525_37 = PRIM_CAR(_3517524_37);
-Obj args = _3517525_37;
-Obj _3517526_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517527_37 = PRIM_CAR(_3517526_37);
-Obj _3517528_37 = PRIM_CDR(_3517527_37);
-Obj _3517529_37 = PRIM_CDR(_3517528_37);
-Obj _3517530_37 = PRIM_ISCONS(_3517529_37);
-if (True == _3517530_37) {
-Obj _3517531_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517532_37 = PRIM_CAR(_3517531_37);
-Obj _3517533_37 = PRIM_CDR(_3517532_37);
-Obj _3517534_37 = PRIM_CDR(_3517533_37);
-Obj _3517535_37 = PRIM_CAR(_3517534_37);
-Obj body = _3517535_37;
-Obj _3517536_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517537_37 = PRIM_CAR(_3517536_37);
-Obj _3517538_37 = PRIM_CDR(_3517537_37);
-Obj _3517539_37 = PRIM_CDR(_3517538_37);
-Obj _3517540_37 = PRIM_CDR(_3517539_37);
-Obj _3517541_37 = PRIM_EQ(Nil, _3517540_37);
-if (True == _3517541_37) {
-Obj _3517542_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517543_37 = PRIM_CDR(_3517542_37);
-Obj frees = _3517543_37;
-R[1] = args;
-R[2] = frees;
-saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), body, globalRef(co, getBinding(co, packageID, 70)));
+Obj _3517550_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518372_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518372_37) {
+Obj _3518373_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518374_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518373_37);
+if (True == _3518374_37) {
+Obj _3518375_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518376_37 = PRIM_ISCONS(_3518375_37);
+if (True == _3518376_37) {
+Obj _3518377_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518378_37 = PRIM_CAR(_3518377_37);
+Obj _3518379_37 = PRIM_ISCONS(_3518378_37);
+if (True == _3518379_37) {
+Obj _3518380_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518381_37 = PRIM_CAR(_3518380_37);
+Obj _3518382_37 = PRIM_CAR(_3518381_37);
+Obj _3518383_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518382_37);
+if (True == _3518383_37) {
+Obj _3518384_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518385_37 = PRIM_CAR(_3518384_37);
+Obj _3518386_37 = PRIM_CDR(_3518385_37);
+Obj _3518387_37 = PRIM_ISCONS(_3518386_37);
+if (True == _3518387_37) {
+Obj _3518388_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518389_37 = PRIM_CAR(_3518388_37);
+Obj _3518390_37 = PRIM_CDR(_3518389_37);
+Obj _3518391_37 = PRIM_CAR(_3518390_37);
+Obj _3517553_37 = _3518391_37;
+Obj _3518392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518393_37 = PRIM_CAR(_3518392_37);
+Obj _3518394_37 = PRIM_CDR(_3518393_37);
+Obj _3518395_37 = PRIM_CDR(_3518394_37);
+Obj _3518396_37 = PRIM_ISCONS(_3518395_37);
+if (True == _3518396_37) {
+Obj _3518397_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518398_37 = PRIM_CAR(_3518397_37);
+Obj _3518399_37 = PRIM_CDR(_3518398_37);
+Obj _3518400_37 = PRIM_CDR(_3518399_37);
+Obj _3518401_37 = PRIM_CAR(_3518400_37);
+Obj _3517554_37 = _3518401_37;
+Obj _3518402_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518403_37 = PRIM_CAR(_3518402_37);
+Obj _3518404_37 = PRIM_CDR(_3518403_37);
+Obj _3518405_37 = PRIM_CDR(_3518404_37);
+Obj _3518406_37 = PRIM_CDR(_3518405_37);
+Obj _3518407_37 = PRIM_EQ(Nil, _3518406_37);
+if (True == _3518407_37) {
+Obj _3518408_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518409_37 = PRIM_CDR(_3518408_37);
+Obj _3517555_37 = _3518409_37;
+R[1] = _3517553_37;
+R[2] = _3517555_37;
+saveCont(co, clofun48, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517554_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516751_37);
+coraCall0(co, _3517550_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517544_37= co->res;
-Obj args = R[1];
-Obj frees = R[2];
-Obj _3517545_37 = makeCons(co->gc, _3517544_37, Nil);
-Obj _3517546_37 = makeCons(co->gc, args, _3517545_37);
-Obj _3517547_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517546_37);
-Obj _3517548_37 = makeCons(co->gc, _3517547_37, frees);
-Obj _3517549_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517548_37);
+Obj _3518410_37= co->res;
+Obj _3517553_37 = R[1];
+Obj _3517555_37 = R[2];
+Obj _3518411_37 = makeCons(co->gc, _3518410_37, Nil);
+Obj _3518412_37 = makeCons(co->gc, _3517553_37, _3518411_37);
+Obj _3518413_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518412_37);
+Obj _3518414_37 = makeCons(co->gc, _3518413_37, _3517555_37);
+Obj _3518415_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518414_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3517549_37);
+coraCall1(co, closureRef(R[0], 1), _3518415_37);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517502_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517502_37) {
-Obj _3517503_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517503_37;
-Obj _3517504_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517504_37;
-Obj _3517505_37 = makeCons(co->gc, f, args);
+Obj _3518368_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518368_37) {
+Obj _3518369_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517551_37 = _3518369_37;
+Obj _3518370_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517552_37 = _3518370_37;
+Obj _3518371_37 = makeCons(co->gc, _3517551_37, _3517552_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3517505_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3518371_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6292,168 +6293,168 @@ return;
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj x = R[1];
-Obj _3517498_37 = makeCons(co->gc, x, Nil);
-Obj _3517499_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3517498_37);
-coraReturn(co, _3517499_37);
+Obj _3518364_37 = makeCons(co->gc, x, Nil);
+Obj _3518365_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3518364_37);
+coraReturn(co, _3518365_37);
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516737_37 = R[1];
-Obj _3516738_37 = R[2];
-R[1] = _3516738_37;
-R[2] = _3516737_37;
-saveCont(co, clofun44, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516738_37);
+Obj _3517341_37 = R[1];
+Obj _3517342_37 = R[2];
+R[1] = _3517342_37;
+R[2] = _3517341_37;
+saveCont(co, clofun45, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517342_37);
 return;
 }
 case 1:
 {
-Obj _3517427_37= co->res;
-Obj _3516738_37 = R[1];
-Obj pos = _3517427_37;
-Obj _3517428_37 = PRIM_EQ(MAKE_NUMBER(-1), pos);
-if (True == _3517428_37) {
-coraReturn(co, _3516738_37);
+Obj _3518293_37= co->res;
+Obj _3517342_37 = R[1];
+Obj _3517533_37 = _3518293_37;
+Obj _3518294_37 = PRIM_EQ(MAKE_NUMBER(-1), _3517533_37);
+if (True == _3518294_37) {
+coraReturn(co, _3517342_37);
 return;
 } else {
-Obj _3517429_37 = makeCons(co->gc, pos, Nil);
-Obj _3517430_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3517429_37);
-coraReturn(co, _3517430_37);
+Obj _3518295_37 = makeCons(co->gc, _3517533_37, Nil);
+Obj _3518296_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3518295_37);
+coraReturn(co, _3518296_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517494_37= co->res;
-Obj _3517492_37 = R[1];
-Obj _3517495_37 = makeCons(co->gc, _3517492_37, _3517494_37);
-Obj _3517496_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3517495_37);
-coraReturn(co, _3517496_37);
+Obj _3518360_37= co->res;
+Obj _3518358_37 = R[1];
+Obj _3518361_37 = makeCons(co->gc, _3518358_37, _3518360_37);
+Obj _3518362_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518361_37);
+coraReturn(co, _3518362_37);
 return;
 }
 case 3:
 {
-Obj _3517493_37= co->res;
-Obj fvs1 = R[1];
-Obj _3517492_37 = R[2];
-R[1] = _3517492_37;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517493_37, fvs1);
+Obj _3518359_37= co->res;
+Obj _3517543_37 = R[1];
+Obj _3518358_37 = R[2];
+R[1] = _3518358_37;
+saveCont(co, clofun45, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518359_37, _3517543_37);
 return;
 }
 case 4:
 {
-Obj _3517489_37= co->res;
-Obj args = R[1];
-Obj _3516737_37 = R[2];
-Obj fvs1 = R[3];
-Obj _3517490_37 = makeCons(co->gc, _3517489_37, Nil);
-Obj _3517491_37 = makeCons(co->gc, args, _3517490_37);
-Obj _3517492_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517491_37);
-R[1] = fvs1;
-R[2] = _3517492_37;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3516737_37);
+Obj _3518355_37= co->res;
+Obj _3517541_37 = R[1];
+Obj _3517341_37 = R[2];
+Obj _3517543_37 = R[3];
+Obj _3518356_37 = makeCons(co->gc, _3518355_37, Nil);
+Obj _3518357_37 = makeCons(co->gc, _3517541_37, _3518356_37);
+Obj _3518358_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518357_37);
+R[1] = _3517543_37;
+R[2] = _3518358_37;
+saveCont(co, clofun45, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3517341_37);
 return;
 }
 case 5:
 {
-Obj _3517488_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-Obj _3516737_37 = R[3];
-Obj fvs1 = _3517488_37;
-R[1] = args;
-R[2] = _3516737_37;
-R[3] = fvs1;
-saveCont(co, clofun44, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), fvs1, body);
+Obj _3518354_37= co->res;
+Obj _3517542_37 = R[1];
+Obj _3517541_37 = R[2];
+Obj _3517341_37 = R[3];
+Obj _3517543_37 = _3518354_37;
+R[1] = _3517541_37;
+R[2] = _3517341_37;
+R[3] = _3517543_37;
+saveCont(co, clofun45, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517543_37, _3517542_37);
 return;
 }
 case 6:
 {
-Obj _3517425_37= co->res;
-Obj _3516738_37 = R[1];
-Obj _3516737_37 = R[2];
-if (True == _3517425_37) {
-coraReturn(co, _3516738_37);
+Obj _3518291_37= co->res;
+Obj _3517342_37 = R[1];
+Obj _3517341_37 = R[2];
+if (True == _3518291_37) {
+coraReturn(co, _3517342_37);
 return;
 } else {
-Obj _3517426_37 = primIsSymbol(_3516738_37);
-if (True == _3517426_37) {
-R[1] = _3516738_37;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516738_37, _3516737_37);
+Obj _3518292_37 = primIsSymbol(_3517342_37);
+if (True == _3518292_37) {
+R[1] = _3517342_37;
+saveCont(co, clofun45, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517342_37, _3517341_37);
 return;
 } else {
-Obj _3516741_37 = makeNative(co->gc, 3, clofun43, 0, 2, _3516738_37, _3516737_37);
-Obj _3517468_37 = PRIM_ISCONS(_3516738_37);
-if (True == _3517468_37) {
-Obj _3517469_37 = PRIM_CAR(_3516738_37);
-Obj _3517470_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517469_37);
-if (True == _3517470_37) {
-Obj _3517471_37 = PRIM_CDR(_3516738_37);
-Obj _3517472_37 = PRIM_ISCONS(_3517471_37);
-if (True == _3517472_37) {
-Obj _3517473_37 = PRIM_CDR(_3516738_37);
-Obj _3517474_37 = PRIM_CAR(_3517473_37);
-Obj args = _3517474_37;
-Obj _3517475_37 = PRIM_CDR(_3516738_37);
-Obj _3517476_37 = PRIM_CDR(_3517475_37);
-Obj _3517477_37 = PRIM_ISCONS(_3517476_37);
-if (True == _3517477_37) {
-Obj _3517478_37 = PRIM_CDR(_3516738_37);
-Obj _3517479_37 = PRIM_CDR(_3517478_37);
-Obj _3517480_37 = PRIM_CAR(_3517479_37);
-Obj body = _3517480_37;
-Obj _3517481_37 = PRIM_CDR(_3516738_37);
-Obj _3517482_37 = PRIM_CDR(_3517481_37);
-Obj _3517483_37 = PRIM_CDR(_3517482_37);
-Obj _3517484_37 = PRIM_EQ(Nil, _3517483_37);
-if (True == _3517484_37) {
-Obj _3517485_37 = makeCons(co->gc, body, Nil);
-Obj _3517486_37 = makeCons(co->gc, args, _3517485_37);
-Obj _3517487_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517486_37);
-R[1] = body;
-R[2] = args;
-R[3] = _3516737_37;
-saveCont(co, clofun44, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517487_37);
+Obj _3517534_37 = makeNative(co->gc, 3, clofun44, 0, 2, _3517342_37, _3517341_37);
+Obj _3518334_37 = PRIM_ISCONS(_3517342_37);
+if (True == _3518334_37) {
+Obj _3518335_37 = PRIM_CAR(_3517342_37);
+Obj _3518336_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518335_37);
+if (True == _3518336_37) {
+Obj _3518337_37 = PRIM_CDR(_3517342_37);
+Obj _3518338_37 = PRIM_ISCONS(_3518337_37);
+if (True == _3518338_37) {
+Obj _3518339_37 = PRIM_CDR(_3517342_37);
+Obj _3518340_37 = PRIM_CAR(_3518339_37);
+Obj _3517541_37 = _3518340_37;
+Obj _3518341_37 = PRIM_CDR(_3517342_37);
+Obj _3518342_37 = PRIM_CDR(_3518341_37);
+Obj _3518343_37 = PRIM_ISCONS(_3518342_37);
+if (True == _3518343_37) {
+Obj _3518344_37 = PRIM_CDR(_3517342_37);
+Obj _3518345_37 = PRIM_CDR(_3518344_37);
+Obj _3518346_37 = PRIM_CAR(_3518345_37);
+Obj _3517542_37 = _3518346_37;
+Obj _3518347_37 = PRIM_CDR(_3517342_37);
+Obj _3518348_37 = PRIM_CDR(_3518347_37);
+Obj _3518349_37 = PRIM_CDR(_3518348_37);
+Obj _3518350_37 = PRIM_EQ(Nil, _3518349_37);
+if (True == _3518350_37) {
+Obj _3518351_37 = makeCons(co->gc, _3517542_37, Nil);
+Obj _3518352_37 = makeCons(co->gc, _3517541_37, _3518351_37);
+Obj _3518353_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518352_37);
+R[1] = _3517542_37;
+R[2] = _3517541_37;
+R[3] = _3517341_37;
+saveCont(co, clofun45, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518353_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516741_37);
+coraCall0(co, _3517534_37);
 return;
 }
 }
@@ -6462,121 +6463,121 @@ return;
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516742_37 = makeNative(co->gc, 3, clofun42, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3517436_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517436_37) {
-Obj _3517437_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517438_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517437_37);
-if (True == _3517438_37) {
-Obj _3517439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517440_37 = PRIM_ISCONS(_3517439_37);
-if (True == _3517440_37) {
-Obj _3517441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517442_37 = PRIM_CAR(_3517441_37);
-Obj a = _3517442_37;
-Obj _3517443_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517444_37 = PRIM_CDR(_3517443_37);
-Obj _3517445_37 = PRIM_ISCONS(_3517444_37);
-if (True == _3517445_37) {
-Obj _3517446_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517447_37 = PRIM_CDR(_3517446_37);
-Obj _3517448_37 = PRIM_CAR(_3517447_37);
-Obj b = _3517448_37;
-Obj _3517449_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517450_37 = PRIM_CDR(_3517449_37);
-Obj _3517451_37 = PRIM_CDR(_3517450_37);
-Obj _3517452_37 = PRIM_ISCONS(_3517451_37);
-if (True == _3517452_37) {
-Obj _3517453_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517454_37 = PRIM_CDR(_3517453_37);
-Obj _3517455_37 = PRIM_CDR(_3517454_37);
-Obj _3517456_37 = PRIM_CAR(_3517455_37);
-Obj c = _3517456_37;
-Obj _3517457_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517458_37 = PRIM_CDR(_3517457_37);
-Obj _3517459_37 = PRIM_CDR(_3517458_37);
-Obj _3517460_37 = PRIM_CDR(_3517459_37);
-Obj _3517461_37 = PRIM_EQ(Nil, _3517460_37);
-if (True == _3517461_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun43, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), b);
+Obj _3517535_37 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj _3518302_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518302_37) {
+Obj _3518303_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518304_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518303_37);
+if (True == _3518304_37) {
+Obj _3518305_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518306_37 = PRIM_ISCONS(_3518305_37);
+if (True == _3518306_37) {
+Obj _3518307_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518308_37 = PRIM_CAR(_3518307_37);
+Obj _3517538_37 = _3518308_37;
+Obj _3518309_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518310_37 = PRIM_CDR(_3518309_37);
+Obj _3518311_37 = PRIM_ISCONS(_3518310_37);
+if (True == _3518311_37) {
+Obj _3518312_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518313_37 = PRIM_CDR(_3518312_37);
+Obj _3518314_37 = PRIM_CAR(_3518313_37);
+Obj _3517539_37 = _3518314_37;
+Obj _3518315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518316_37 = PRIM_CDR(_3518315_37);
+Obj _3518317_37 = PRIM_CDR(_3518316_37);
+Obj _3518318_37 = PRIM_ISCONS(_3518317_37);
+if (True == _3518318_37) {
+Obj _3518319_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518320_37 = PRIM_CDR(_3518319_37);
+Obj _3518321_37 = PRIM_CDR(_3518320_37);
+Obj _3518322_37 = PRIM_CAR(_3518321_37);
+Obj _3517540_37 = _3518322_37;
+Obj _3518323_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518324_37 = PRIM_CDR(_3518323_37);
+Obj _3518325_37 = PRIM_CDR(_3518324_37);
+Obj _3518326_37 = PRIM_CDR(_3518325_37);
+Obj _3518327_37 = PRIM_EQ(Nil, _3518326_37);
+if (True == _3518327_37) {
+R[1] = _3517540_37;
+R[2] = _3517538_37;
+saveCont(co, clofun44, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517539_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516742_37);
+coraCall0(co, _3517535_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517463_37= co->res;
-Obj _3517462_37 = R[1];
-Obj a = R[2];
-Obj _3517464_37 = makeCons(co->gc, _3517463_37, Nil);
-Obj _3517465_37 = makeCons(co->gc, _3517462_37, _3517464_37);
-Obj _3517466_37 = makeCons(co->gc, a, _3517465_37);
-Obj _3517467_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517466_37);
-coraReturn(co, _3517467_37);
+Obj _3518329_37= co->res;
+Obj _3518328_37 = R[1];
+Obj _3517538_37 = R[2];
+Obj _3518330_37 = makeCons(co->gc, _3518329_37, Nil);
+Obj _3518331_37 = makeCons(co->gc, _3518328_37, _3518330_37);
+Obj _3518332_37 = makeCons(co->gc, _3517538_37, _3518331_37);
+Obj _3518333_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518332_37);
+coraReturn(co, _3518333_37);
 return;
 }
 case 2:
 {
-Obj _3517462_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = _3517462_37;
-R[2] = a;
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), c);
+Obj _3518328_37= co->res;
+Obj _3517540_37 = R[1];
+Obj _3517538_37 = R[2];
+R[1] = _3518328_37;
+R[2] = _3517538_37;
+saveCont(co, clofun44, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517540_37);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517431_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517431_37) {
-Obj _3517432_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517432_37;
-Obj _3517433_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517433_37;
-R[1] = f;
-R[2] = args;
-saveCont(co, clofun42, 1, R);
+Obj _3518297_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518297_37) {
+Obj _3518298_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517536_37 = _3518298_37;
+Obj _3518299_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517537_37 = _3518299_37;
+R[1] = _3517536_37;
+R[2] = _3517537_37;
+saveCont(co, clofun43, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
 } else {
@@ -6587,101 +6588,101 @@ return;
 }
 case 1:
 {
-Obj _3517434_37= co->res;
-Obj f = R[1];
-Obj args = R[2];
-Obj _3517435_37 = makeCons(co->gc, f, args);
+Obj _3518300_37= co->res;
+Obj _3517536_37 = R[1];
+Obj _3517537_37 = R[2];
+Obj _3518301_37 = makeCons(co->gc, _3517536_37, _3517537_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517434_37, _3517435_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518300_37, _3518301_37);
 return;
 }
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516724_37 = R[1];
-R[1] = _3516724_37;
-saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3516724_37);
+Obj _3517328_37 = R[1];
+R[1] = _3517328_37;
+saveCont(co, clofun42, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517328_37);
 return;
 }
 case 1:
 {
-Obj _3517423_37= co->res;
-Obj args = R[1];
+Obj _3518289_37= co->res;
+Obj _3517531_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517423_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518289_37, _3517531_37);
 return;
 }
 case 2:
 {
-Obj _3517250_37= co->res;
-Obj _3516724_37 = R[1];
-if (True == _3517250_37) {
+Obj _3518116_37= co->res;
+Obj _3517328_37 = R[1];
+if (True == _3518116_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517251_37 = primIsSymbol(_3516724_37);
-if (True == _3517251_37) {
-Obj _3517252_37 = makeCons(co->gc, _3516724_37, Nil);
-coraReturn(co, _3517252_37);
-return;
-} else {
-Obj _3516727_37 = makeNative(co->gc, 1, clofun40, 0, 1, _3516724_37);
-Obj _3517406_37 = PRIM_ISCONS(_3516724_37);
-if (True == _3517406_37) {
-Obj _3517407_37 = PRIM_CAR(_3516724_37);
-Obj _3517408_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517407_37);
-if (True == _3517408_37) {
-Obj _3517409_37 = PRIM_CDR(_3516724_37);
-Obj _3517410_37 = PRIM_ISCONS(_3517409_37);
-if (True == _3517410_37) {
-Obj _3517411_37 = PRIM_CDR(_3516724_37);
-Obj _3517412_37 = PRIM_CAR(_3517411_37);
-Obj args = _3517412_37;
-Obj _3517413_37 = PRIM_CDR(_3516724_37);
-Obj _3517414_37 = PRIM_CDR(_3517413_37);
-Obj _3517415_37 = PRIM_ISCONS(_3517414_37);
-if (True == _3517415_37) {
-Obj _3517416_37 = PRIM_CDR(_3516724_37);
-Obj _3517417_37 = PRIM_CDR(_3517416_37);
-Obj _3517418_37 = PRIM_CAR(_3517417_37);
-Obj body = _3517418_37;
-Obj _3517419_37 = PRIM_CDR(_3516724_37);
-Obj _3517420_37 = PRIM_CDR(_3517419_37);
-Obj _3517421_37 = PRIM_CDR(_3517420_37);
-Obj _3517422_37 = PRIM_EQ(Nil, _3517421_37);
-if (True == _3517422_37) {
-R[1] = args;
-saveCont(co, clofun41, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+Obj _3518117_37 = primIsSymbol(_3517328_37);
+if (True == _3518117_37) {
+Obj _3518118_37 = makeCons(co->gc, _3517328_37, Nil);
+coraReturn(co, _3518118_37);
+return;
+} else {
+Obj _3517504_37 = makeNative(co->gc, 1, clofun41, 0, 1, _3517328_37);
+Obj _3518272_37 = PRIM_ISCONS(_3517328_37);
+if (True == _3518272_37) {
+Obj _3518273_37 = PRIM_CAR(_3517328_37);
+Obj _3518274_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518273_37);
+if (True == _3518274_37) {
+Obj _3518275_37 = PRIM_CDR(_3517328_37);
+Obj _3518276_37 = PRIM_ISCONS(_3518275_37);
+if (True == _3518276_37) {
+Obj _3518277_37 = PRIM_CDR(_3517328_37);
+Obj _3518278_37 = PRIM_CAR(_3518277_37);
+Obj _3517531_37 = _3518278_37;
+Obj _3518279_37 = PRIM_CDR(_3517328_37);
+Obj _3518280_37 = PRIM_CDR(_3518279_37);
+Obj _3518281_37 = PRIM_ISCONS(_3518280_37);
+if (True == _3518281_37) {
+Obj _3518282_37 = PRIM_CDR(_3517328_37);
+Obj _3518283_37 = PRIM_CDR(_3518282_37);
+Obj _3518284_37 = PRIM_CAR(_3518283_37);
+Obj _3517532_37 = _3518284_37;
+Obj _3518285_37 = PRIM_CDR(_3517328_37);
+Obj _3518286_37 = PRIM_CDR(_3518285_37);
+Obj _3518287_37 = PRIM_CDR(_3518286_37);
+Obj _3518288_37 = PRIM_EQ(Nil, _3518287_37);
+if (True == _3518288_37) {
+R[1] = _3517531_37;
+saveCont(co, clofun42, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517532_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516727_37);
+coraCall0(co, _3517504_37);
 return;
 }
 }
@@ -6690,561 +6691,561 @@ return;
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516728_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3517376_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517376_37) {
-Obj _3517377_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517378_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517377_37);
-if (True == _3517378_37) {
-Obj _3517379_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517380_37 = PRIM_ISCONS(_3517379_37);
-if (True == _3517380_37) {
-Obj _3517381_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517382_37 = PRIM_CAR(_3517381_37);
-Obj x = _3517382_37;
-Obj _3517383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517384_37 = PRIM_CDR(_3517383_37);
-Obj _3517385_37 = PRIM_ISCONS(_3517384_37);
-if (True == _3517385_37) {
-Obj _3517386_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517387_37 = PRIM_CDR(_3517386_37);
-Obj _3517388_37 = PRIM_CAR(_3517387_37);
-Obj y = _3517388_37;
-Obj _3517389_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517390_37 = PRIM_CDR(_3517389_37);
-Obj _3517391_37 = PRIM_CDR(_3517390_37);
-Obj _3517392_37 = PRIM_ISCONS(_3517391_37);
-if (True == _3517392_37) {
-Obj _3517393_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517394_37 = PRIM_CDR(_3517393_37);
-Obj _3517395_37 = PRIM_CDR(_3517394_37);
-Obj _3517396_37 = PRIM_CAR(_3517395_37);
-Obj z = _3517396_37;
-Obj _3517397_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517398_37 = PRIM_CDR(_3517397_37);
-Obj _3517399_37 = PRIM_CDR(_3517398_37);
-Obj _3517400_37 = PRIM_CDR(_3517399_37);
-Obj _3517401_37 = PRIM_EQ(Nil, _3517400_37);
-if (True == _3517401_37) {
-Obj _3517402_37 = makeCons(co->gc, z, Nil);
-Obj _3517403_37 = makeCons(co->gc, y, _3517402_37);
-Obj _3517404_37 = makeCons(co->gc, x, _3517403_37);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517404_37);
+Obj _3517505_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj _3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518242_37) {
+Obj _3518243_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518244_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518243_37);
+if (True == _3518244_37) {
+Obj _3518245_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518246_37 = PRIM_ISCONS(_3518245_37);
+if (True == _3518246_37) {
+Obj _3518247_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518248_37 = PRIM_CAR(_3518247_37);
+Obj _3517528_37 = _3518248_37;
+Obj _3518249_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518250_37 = PRIM_CDR(_3518249_37);
+Obj _3518251_37 = PRIM_ISCONS(_3518250_37);
+if (True == _3518251_37) {
+Obj _3518252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518253_37 = PRIM_CDR(_3518252_37);
+Obj _3518254_37 = PRIM_CAR(_3518253_37);
+Obj _3517529_37 = _3518254_37;
+Obj _3518255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518256_37 = PRIM_CDR(_3518255_37);
+Obj _3518257_37 = PRIM_CDR(_3518256_37);
+Obj _3518258_37 = PRIM_ISCONS(_3518257_37);
+if (True == _3518258_37) {
+Obj _3518259_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518260_37 = PRIM_CDR(_3518259_37);
+Obj _3518261_37 = PRIM_CDR(_3518260_37);
+Obj _3518262_37 = PRIM_CAR(_3518261_37);
+Obj _3517530_37 = _3518262_37;
+Obj _3518263_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518264_37 = PRIM_CDR(_3518263_37);
+Obj _3518265_37 = PRIM_CDR(_3518264_37);
+Obj _3518266_37 = PRIM_CDR(_3518265_37);
+Obj _3518267_37 = PRIM_EQ(Nil, _3518266_37);
+if (True == _3518267_37) {
+Obj _3518268_37 = makeCons(co->gc, _3517530_37, Nil);
+Obj _3518269_37 = makeCons(co->gc, _3517529_37, _3518268_37);
+Obj _3518270_37 = makeCons(co->gc, _3517528_37, _3518269_37);
+saveCont(co, clofun41, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518270_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516728_37);
+coraCall0(co, _3517505_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517405_37= co->res;
+Obj _3518271_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517405_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518271_37);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516729_37 = makeNative(co->gc, 3, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3517356_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517356_37) {
-Obj _3517357_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517358_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517357_37);
-if (True == _3517358_37) {
-Obj _3517359_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517360_37 = PRIM_ISCONS(_3517359_37);
-if (True == _3517360_37) {
-Obj _3517361_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517362_37 = PRIM_CAR(_3517361_37);
-Obj x = _3517362_37;
-Obj _3517363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517364_37 = PRIM_CDR(_3517363_37);
-Obj _3517365_37 = PRIM_ISCONS(_3517364_37);
-if (True == _3517365_37) {
-Obj _3517366_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517367_37 = PRIM_CDR(_3517366_37);
-Obj _3517368_37 = PRIM_CAR(_3517367_37);
-Obj y = _3517368_37;
-Obj _3517369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517370_37 = PRIM_CDR(_3517369_37);
-Obj _3517371_37 = PRIM_CDR(_3517370_37);
-Obj _3517372_37 = PRIM_EQ(Nil, _3517371_37);
-if (True == _3517372_37) {
-Obj _3517373_37 = makeCons(co->gc, y, Nil);
-Obj _3517374_37 = makeCons(co->gc, x, _3517373_37);
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517374_37);
+Obj _3517506_37 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
+Obj _3518222_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518222_37) {
+Obj _3518223_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518224_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518223_37);
+if (True == _3518224_37) {
+Obj _3518225_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518226_37 = PRIM_ISCONS(_3518225_37);
+if (True == _3518226_37) {
+Obj _3518227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518228_37 = PRIM_CAR(_3518227_37);
+Obj _3517526_37 = _3518228_37;
+Obj _3518229_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518230_37 = PRIM_CDR(_3518229_37);
+Obj _3518231_37 = PRIM_ISCONS(_3518230_37);
+if (True == _3518231_37) {
+Obj _3518232_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518233_37 = PRIM_CDR(_3518232_37);
+Obj _3518234_37 = PRIM_CAR(_3518233_37);
+Obj _3517527_37 = _3518234_37;
+Obj _3518235_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518236_37 = PRIM_CDR(_3518235_37);
+Obj _3518237_37 = PRIM_CDR(_3518236_37);
+Obj _3518238_37 = PRIM_EQ(Nil, _3518237_37);
+if (True == _3518238_37) {
+Obj _3518239_37 = makeCons(co->gc, _3517527_37, Nil);
+Obj _3518240_37 = makeCons(co->gc, _3517526_37, _3518239_37);
+saveCont(co, clofun40, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518240_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516729_37);
+coraCall0(co, _3517506_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517375_37= co->res;
+Obj _3518241_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517375_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518241_37);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516730_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3517326_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517326_37) {
-Obj _3517327_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517328_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517327_37);
-if (True == _3517328_37) {
-Obj _3517329_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517330_37 = PRIM_ISCONS(_3517329_37);
-if (True == _3517330_37) {
-Obj _3517331_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517332_37 = PRIM_CAR(_3517331_37);
-Obj a = _3517332_37;
-Obj _3517333_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517334_37 = PRIM_CDR(_3517333_37);
-Obj _3517335_37 = PRIM_ISCONS(_3517334_37);
-if (True == _3517335_37) {
-Obj _3517336_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517337_37 = PRIM_CDR(_3517336_37);
-Obj _3517338_37 = PRIM_CAR(_3517337_37);
-Obj b = _3517338_37;
-Obj _3517339_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517340_37 = PRIM_CDR(_3517339_37);
-Obj _3517341_37 = PRIM_CDR(_3517340_37);
-Obj _3517342_37 = PRIM_ISCONS(_3517341_37);
-if (True == _3517342_37) {
-Obj _3517343_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517344_37 = PRIM_CDR(_3517343_37);
-Obj _3517345_37 = PRIM_CDR(_3517344_37);
-Obj _3517346_37 = PRIM_CAR(_3517345_37);
-Obj c = _3517346_37;
-Obj _3517347_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517348_37 = PRIM_CDR(_3517347_37);
-Obj _3517349_37 = PRIM_CDR(_3517348_37);
-Obj _3517350_37 = PRIM_CDR(_3517349_37);
-Obj _3517351_37 = PRIM_EQ(Nil, _3517350_37);
-if (True == _3517351_37) {
-R[1] = c;
-R[2] = a;
-saveCont(co, clofun38, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), b);
+Obj _3517507_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj _3518192_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518192_37) {
+Obj _3518193_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518194_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518193_37);
+if (True == _3518194_37) {
+Obj _3518195_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518196_37 = PRIM_ISCONS(_3518195_37);
+if (True == _3518196_37) {
+Obj _3518197_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518198_37 = PRIM_CAR(_3518197_37);
+Obj _3517523_37 = _3518198_37;
+Obj _3518199_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518200_37 = PRIM_CDR(_3518199_37);
+Obj _3518201_37 = PRIM_ISCONS(_3518200_37);
+if (True == _3518201_37) {
+Obj _3518202_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518203_37 = PRIM_CDR(_3518202_37);
+Obj _3518204_37 = PRIM_CAR(_3518203_37);
+Obj _3517524_37 = _3518204_37;
+Obj _3518205_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518206_37 = PRIM_CDR(_3518205_37);
+Obj _3518207_37 = PRIM_CDR(_3518206_37);
+Obj _3518208_37 = PRIM_ISCONS(_3518207_37);
+if (True == _3518208_37) {
+Obj _3518209_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518210_37 = PRIM_CDR(_3518209_37);
+Obj _3518211_37 = PRIM_CDR(_3518210_37);
+Obj _3518212_37 = PRIM_CAR(_3518211_37);
+Obj _3517525_37 = _3518212_37;
+Obj _3518213_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518214_37 = PRIM_CDR(_3518213_37);
+Obj _3518215_37 = PRIM_CDR(_3518214_37);
+Obj _3518216_37 = PRIM_CDR(_3518215_37);
+Obj _3518217_37 = PRIM_EQ(Nil, _3518216_37);
+if (True == _3518217_37) {
+R[1] = _3517525_37;
+R[2] = _3517523_37;
+saveCont(co, clofun39, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517524_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516730_37);
+coraCall0(co, _3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516730_37);
+coraCall0(co, _3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516730_37);
+coraCall0(co, _3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516730_37);
+coraCall0(co, _3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516730_37);
+coraCall0(co, _3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516730_37);
+coraCall0(co, _3517507_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517355_37= co->res;
-Obj _3517352_37 = R[1];
+Obj _3518221_37= co->res;
+Obj _3518218_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517352_37, _3517355_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3518218_37, _3518221_37);
 return;
 }
 case 2:
 {
-Obj _3517353_37= co->res;
-Obj a = R[1];
-Obj _3517352_37 = R[2];
-Obj _3517354_37 = makeCons(co->gc, a, Nil);
-R[1] = _3517352_37;
-saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517353_37, _3517354_37);
+Obj _3518219_37= co->res;
+Obj _3517523_37 = R[1];
+Obj _3518218_37 = R[2];
+Obj _3518220_37 = makeCons(co->gc, _3517523_37, Nil);
+R[1] = _3518218_37;
+saveCont(co, clofun39, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518219_37, _3518220_37);
 return;
 }
 case 3:
 {
-Obj _3517352_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-R[1] = a;
-R[2] = _3517352_37;
-saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), c);
+Obj _3518218_37= co->res;
+Obj _3517525_37 = R[1];
+Obj _3517523_37 = R[2];
+R[1] = _3517523_37;
+R[2] = _3518218_37;
+saveCont(co, clofun39, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517525_37);
 return;
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516731_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3517316_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517316_37) {
-Obj _3517317_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517318_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517317_37);
-if (True == _3517318_37) {
-Obj _3517319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517320_37 = PRIM_ISCONS(_3517319_37);
-if (True == _3517320_37) {
-Obj _3517321_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517322_37 = PRIM_CAR(_3517321_37);
-Obj lam = _3517322_37;
-Obj _3517323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517324_37 = PRIM_CDR(_3517323_37);
-Obj more = _3517324_37;
-Obj _3517325_37 = makeCons(co->gc, lam, more);
+Obj _3517508_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj _3518182_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518182_37) {
+Obj _3518183_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518184_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518183_37);
+if (True == _3518184_37) {
+Obj _3518185_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518186_37 = PRIM_ISCONS(_3518185_37);
+if (True == _3518186_37) {
+Obj _3518187_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518188_37 = PRIM_CAR(_3518187_37);
+Obj _3517521_37 = _3518188_37;
+Obj _3518189_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518190_37 = PRIM_CDR(_3518189_37);
+Obj _3517522_37 = _3518190_37;
+Obj _3518191_37 = makeCons(co->gc, _3517521_37, _3517522_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517325_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518191_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, _3517508_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, _3517508_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516731_37);
+coraCall0(co, _3517508_37);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516732_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3517306_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517306_37) {
-Obj _3517307_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517308_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3517307_37);
-if (True == _3517308_37) {
-Obj _3517309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517310_37 = PRIM_ISCONS(_3517309_37);
-if (True == _3517310_37) {
-Obj _3517311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517312_37 = PRIM_CAR(_3517311_37);
-Obj x = _3517312_37;
-Obj _3517313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517314_37 = PRIM_CDR(_3517313_37);
-Obj _3517315_37 = PRIM_EQ(Nil, _3517314_37);
-if (True == _3517315_37) {
+Obj _3517509_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj _3518172_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518172_37) {
+Obj _3518173_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518174_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3518173_37);
+if (True == _3518174_37) {
+Obj _3518175_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518176_37 = PRIM_ISCONS(_3518175_37);
+if (True == _3518176_37) {
+Obj _3518177_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518178_37 = PRIM_CAR(_3518177_37);
+Obj _3517520_37 = _3518178_37;
+Obj _3518179_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518180_37 = PRIM_CDR(_3518179_37);
+Obj _3518181_37 = PRIM_EQ(Nil, _3518180_37);
+if (True == _3518181_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517520_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3517509_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3517509_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3517509_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516732_37);
+coraCall0(co, _3517509_37);
 return;
 }
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516733_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3517286_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517286_37) {
-Obj _3517287_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517288_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3517287_37);
-if (True == _3517288_37) {
-Obj _3517289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517290_37 = PRIM_ISCONS(_3517289_37);
-if (True == _3517290_37) {
-Obj _3517291_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517292_37 = PRIM_CAR(_3517291_37);
-Obj exp = _3517292_37;
-Obj _3517293_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517294_37 = PRIM_CDR(_3517293_37);
-Obj _3517295_37 = PRIM_ISCONS(_3517294_37);
-if (True == _3517295_37) {
-Obj _3517296_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517297_37 = PRIM_CDR(_3517296_37);
-Obj _3517298_37 = PRIM_CAR(_3517297_37);
-Obj cont = _3517298_37;
-Obj _3517299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517300_37 = PRIM_CDR(_3517299_37);
-Obj _3517301_37 = PRIM_CDR(_3517300_37);
-Obj _3517302_37 = PRIM_EQ(Nil, _3517301_37);
-if (True == _3517302_37) {
-Obj _3517303_37 = makeCons(co->gc, cont, Nil);
-Obj _3517304_37 = makeCons(co->gc, exp, _3517303_37);
-saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517304_37);
+Obj _3517510_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj _3518152_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518152_37) {
+Obj _3518153_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518154_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518153_37);
+if (True == _3518154_37) {
+Obj _3518155_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518156_37 = PRIM_ISCONS(_3518155_37);
+if (True == _3518156_37) {
+Obj _3518157_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518158_37 = PRIM_CAR(_3518157_37);
+Obj _3517518_37 = _3518158_37;
+Obj _3518159_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518160_37 = PRIM_CDR(_3518159_37);
+Obj _3518161_37 = PRIM_ISCONS(_3518160_37);
+if (True == _3518161_37) {
+Obj _3518162_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518163_37 = PRIM_CDR(_3518162_37);
+Obj _3518164_37 = PRIM_CAR(_3518163_37);
+Obj _3517519_37 = _3518164_37;
+Obj _3518165_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518166_37 = PRIM_CDR(_3518165_37);
+Obj _3518167_37 = PRIM_CDR(_3518166_37);
+Obj _3518168_37 = PRIM_EQ(Nil, _3518167_37);
+if (True == _3518168_37) {
+Obj _3518169_37 = makeCons(co->gc, _3517519_37, Nil);
+Obj _3518170_37 = makeCons(co->gc, _3517518_37, _3518169_37);
+saveCont(co, clofun36, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518170_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516733_37);
+coraCall0(co, _3517510_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517305_37= co->res;
+Obj _3518171_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517305_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518171_37);
 return;
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516734_37 = makeNative(co->gc, 2, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3517276_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517276_37) {
-Obj _3517277_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517278_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3517277_37);
-if (True == _3517278_37) {
-Obj _3517279_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517280_37 = PRIM_ISCONS(_3517279_37);
-if (True == _3517280_37) {
-Obj _3517281_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517282_37 = PRIM_CAR(_3517281_37);
-Obj exp = _3517282_37;
-Obj _3517283_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517284_37 = PRIM_CDR(_3517283_37);
-Obj _3517285_37 = PRIM_EQ(Nil, _3517284_37);
-if (True == _3517285_37) {
+Obj _3517511_37 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
+Obj _3518142_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518142_37) {
+Obj _3518143_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518144_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518143_37);
+if (True == _3518144_37) {
+Obj _3518145_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518146_37 = PRIM_ISCONS(_3518145_37);
+if (True == _3518146_37) {
+Obj _3518147_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518148_37 = PRIM_CAR(_3518147_37);
+Obj _3517517_37 = _3518148_37;
+Obj _3518149_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518150_37 = PRIM_CDR(_3518149_37);
+Obj _3518151_37 = PRIM_EQ(Nil, _3518150_37);
+if (True == _3518151_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517517_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516734_37);
+coraCall0(co, _3517511_37);
 return;
 }
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516735_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj _3517258_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517258_37) {
-Obj _3517259_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517260_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3517259_37);
-if (True == _3517260_37) {
-Obj _3517261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517262_37 = PRIM_ISCONS(_3517261_37);
-if (True == _3517262_37) {
-Obj _3517263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517264_37 = PRIM_CAR(_3517263_37);
-Obj arg = _3517264_37;
-Obj _3517265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517266_37 = PRIM_CDR(_3517265_37);
-Obj _3517267_37 = PRIM_ISCONS(_3517266_37);
-if (True == _3517267_37) {
-Obj _3517268_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517269_37 = PRIM_CDR(_3517268_37);
-Obj _3517270_37 = PRIM_CAR(_3517269_37);
-Obj body = _3517270_37;
-Obj _3517271_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517272_37 = PRIM_CDR(_3517271_37);
-Obj _3517273_37 = PRIM_CDR(_3517272_37);
-Obj _3517274_37 = PRIM_EQ(Nil, _3517273_37);
-if (True == _3517274_37) {
-R[1] = arg;
-saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), body);
+Obj _3517512_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj _3518124_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518124_37) {
+Obj _3518125_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518126_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518125_37);
+if (True == _3518126_37) {
+Obj _3518127_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518128_37 = PRIM_ISCONS(_3518127_37);
+if (True == _3518128_37) {
+Obj _3518129_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518130_37 = PRIM_CAR(_3518129_37);
+Obj _3517515_37 = _3518130_37;
+Obj _3518131_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518132_37 = PRIM_CDR(_3518131_37);
+Obj _3518133_37 = PRIM_ISCONS(_3518132_37);
+if (True == _3518133_37) {
+Obj _3518134_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518135_37 = PRIM_CDR(_3518134_37);
+Obj _3518136_37 = PRIM_CAR(_3518135_37);
+Obj _3517516_37 = _3518136_37;
+Obj _3518137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518138_37 = PRIM_CDR(_3518137_37);
+Obj _3518139_37 = PRIM_CDR(_3518138_37);
+Obj _3518140_37 = PRIM_EQ(Nil, _3518139_37);
+if (True == _3518140_37) {
+R[1] = _3517515_37;
+saveCont(co, clofun34, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517516_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516735_37);
+coraCall0(co, _3517512_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517275_37= co->res;
-Obj arg = R[1];
+Obj _3518141_37= co->res;
+Obj _3517515_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517275_37, arg);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518141_37, _3517515_37);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517253_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517253_37) {
-Obj _3517254_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj f = _3517254_37;
-Obj _3517255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517255_37;
-Obj _3517256_37 = makeCons(co->gc, f, args);
-saveCont(co, clofun32, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), globalRef(co, getBinding(co, packageID, 76)), _3517256_37);
+Obj _3518119_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518119_37) {
+Obj _3518120_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517513_37 = _3518120_37;
+Obj _3518121_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517514_37 = _3518121_37;
+Obj _3518122_37 = makeCons(co->gc, _3517513_37, _3517514_37);
+saveCont(co, clofun33, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518122_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7254,295 +7255,295 @@ return;
 }
 case 1:
 {
-Obj _3517257_37= co->res;
+Obj _3518123_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 81)), Nil, _3517257_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518123_37);
 return;
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516716_37 = R[1];
-Obj _3516717_37 = makeNative(co->gc, 1, clofun30, 0, 1, _3516716_37);
-Obj _3517239_37 = PRIM_ISCONS(_3516716_37);
-if (True == _3517239_37) {
-Obj _3517240_37 = PRIM_CAR(_3516716_37);
-Obj _3517241_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3517240_37);
-if (True == _3517241_37) {
-Obj _3517242_37 = PRIM_CDR(_3516716_37);
-Obj _3517243_37 = PRIM_ISCONS(_3517242_37);
-if (True == _3517243_37) {
-Obj _3517244_37 = PRIM_CDR(_3516716_37);
-Obj _3517245_37 = PRIM_CAR(_3517244_37);
-Obj _3517246_37 = PRIM_CDR(_3516716_37);
-Obj _3517247_37 = PRIM_CDR(_3517246_37);
-Obj _3517248_37 = PRIM_EQ(Nil, _3517247_37);
-if (True == _3517248_37) {
+Obj _3517320_37 = R[1];
+Obj _3517497_37 = makeNative(co->gc, 1, clofun31, 0, 1, _3517320_37);
+Obj _3518105_37 = PRIM_ISCONS(_3517320_37);
+if (True == _3518105_37) {
+Obj _3518106_37 = PRIM_CAR(_3517320_37);
+Obj _3518107_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518106_37);
+if (True == _3518107_37) {
+Obj _3518108_37 = PRIM_CDR(_3517320_37);
+Obj _3518109_37 = PRIM_ISCONS(_3518108_37);
+if (True == _3518109_37) {
+Obj _3518110_37 = PRIM_CDR(_3517320_37);
+Obj _3518111_37 = PRIM_CAR(_3518110_37);
+Obj _3518112_37 = PRIM_CDR(_3517320_37);
+Obj _3518113_37 = PRIM_CDR(_3518112_37);
+Obj _3518114_37 = PRIM_EQ(Nil, _3518113_37);
+if (True == _3518114_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3517497_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3517497_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3517497_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516717_37);
+coraCall0(co, _3517497_37);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516718_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3517229_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517229_37) {
-Obj _3517230_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517231_37 = PRIM_EQ(getBinding(co, packageID, 93).name, _3517230_37);
-if (True == _3517231_37) {
-Obj _3517232_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517233_37 = PRIM_ISCONS(_3517232_37);
-if (True == _3517233_37) {
-Obj _3517234_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517235_37 = PRIM_CAR(_3517234_37);
-Obj _3517236_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517237_37 = PRIM_CDR(_3517236_37);
-Obj _3517238_37 = PRIM_EQ(Nil, _3517237_37);
-if (True == _3517238_37) {
+Obj _3517498_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj _3518095_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518095_37) {
+Obj _3518096_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518097_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3518096_37);
+if (True == _3518097_37) {
+Obj _3518098_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518099_37 = PRIM_ISCONS(_3518098_37);
+if (True == _3518099_37) {
+Obj _3518100_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518101_37 = PRIM_CAR(_3518100_37);
+Obj _3518102_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518103_37 = PRIM_CDR(_3518102_37);
+Obj _3518104_37 = PRIM_EQ(Nil, _3518103_37);
+if (True == _3518104_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3517498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3517498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3517498_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516718_37);
+coraCall0(co, _3517498_37);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516719_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3517219_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517219_37) {
-Obj _3517220_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517221_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517220_37);
-if (True == _3517221_37) {
-Obj _3517222_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517223_37 = PRIM_ISCONS(_3517222_37);
-if (True == _3517223_37) {
-Obj _3517224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517225_37 = PRIM_CAR(_3517224_37);
-Obj _3517226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517227_37 = PRIM_CDR(_3517226_37);
-Obj _3517228_37 = PRIM_EQ(Nil, _3517227_37);
-if (True == _3517228_37) {
+Obj _3517499_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj _3518085_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518085_37) {
+Obj _3518086_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518087_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3518086_37);
+if (True == _3518087_37) {
+Obj _3518088_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518089_37 = PRIM_ISCONS(_3518088_37);
+if (True == _3518089_37) {
+Obj _3518090_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518091_37 = PRIM_CAR(_3518090_37);
+Obj _3518092_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518093_37 = PRIM_CDR(_3518092_37);
+Obj _3518094_37 = PRIM_EQ(Nil, _3518093_37);
+if (True == _3518094_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3517499_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3517499_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3517499_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516719_37);
+coraCall0(co, _3517499_37);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516720_37 = makeNative(co->gc, 1, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3517209_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517209_37) {
-Obj _3517210_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517211_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517210_37);
-if (True == _3517211_37) {
-Obj _3517212_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517213_37 = PRIM_ISCONS(_3517212_37);
-if (True == _3517213_37) {
-Obj _3517214_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517215_37 = PRIM_CAR(_3517214_37);
-Obj _3517216_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517217_37 = PRIM_CDR(_3517216_37);
-Obj _3517218_37 = PRIM_EQ(Nil, _3517217_37);
-if (True == _3517218_37) {
+Obj _3517500_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj _3518075_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518075_37) {
+Obj _3518076_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518077_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518076_37);
+if (True == _3518077_37) {
+Obj _3518078_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518079_37 = PRIM_ISCONS(_3518078_37);
+if (True == _3518079_37) {
+Obj _3518080_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518081_37 = PRIM_CAR(_3518080_37);
+Obj _3518082_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518083_37 = PRIM_CDR(_3518082_37);
+Obj _3518084_37 = PRIM_EQ(Nil, _3518083_37);
+if (True == _3518084_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3517500_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3517500_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3517500_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516720_37);
+coraCall0(co, _3517500_37);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516721_37 = makeNative(co->gc, 2, clofun26, 0, 1, closureRef(R[0], 0));
-Obj _3517199_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517199_37) {
-Obj _3517200_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517201_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3517200_37);
-if (True == _3517201_37) {
-Obj _3517202_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517203_37 = PRIM_ISCONS(_3517202_37);
-if (True == _3517203_37) {
-Obj _3517204_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517205_37 = PRIM_CAR(_3517204_37);
-Obj _3517206_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517207_37 = PRIM_CDR(_3517206_37);
-Obj _3517208_37 = PRIM_EQ(Nil, _3517207_37);
-if (True == _3517208_37) {
+Obj _3517501_37 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
+Obj _3518065_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518065_37) {
+Obj _3518066_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518067_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518066_37);
+if (True == _3518067_37) {
+Obj _3518068_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518069_37 = PRIM_ISCONS(_3518068_37);
+if (True == _3518069_37) {
+Obj _3518070_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518071_37 = PRIM_CAR(_3518070_37);
+Obj _3518072_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518073_37 = PRIM_CDR(_3518072_37);
+Obj _3518074_37 = PRIM_EQ(Nil, _3518073_37);
+if (True == _3518074_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517501_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516721_37);
+coraCall0(co, _3517501_37);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516722_37 = makeNative(co->gc, 1, clofun25, 0, 0);
-Obj _3517189_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517189_37) {
-Obj _3517190_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517191_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3517190_37);
-if (True == _3517191_37) {
-Obj _3517192_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517193_37 = PRIM_ISCONS(_3517192_37);
-if (True == _3517193_37) {
-Obj _3517194_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517195_37 = PRIM_CAR(_3517194_37);
-Obj label = _3517195_37;
-Obj _3517196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517197_37 = PRIM_CDR(_3517196_37);
-R[1] = _3516722_37;
-saveCont(co, clofun26, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), label);
+Obj _3517502_37 = makeNative(co->gc, 1, clofun26, 0, 0);
+Obj _3518055_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518055_37) {
+Obj _3518056_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3518057_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518056_37);
+if (True == _3518057_37) {
+Obj _3518058_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518059_37 = PRIM_ISCONS(_3518058_37);
+if (True == _3518059_37) {
+Obj _3518060_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518061_37 = PRIM_CAR(_3518060_37);
+Obj _3517503_37 = _3518061_37;
+Obj _3518062_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518063_37 = PRIM_CDR(_3518062_37);
+R[1] = _3517502_37;
+saveCont(co, clofun27, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517503_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517502_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517502_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517502_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517198_37= co->res;
-Obj _3516722_37 = R[1];
-if (True == _3517198_37) {
+Obj _3518064_37= co->res;
+Obj _3517502_37 = R[1];
+if (True == _3518064_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516722_37);
+coraCall0(co, _3517502_37);
 return;
 }
 }
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7552,69 +7553,69 @@ return;
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516711_37 = R[1];
-Obj _3516712_37 = R[2];
-Obj _3517178_37 = PRIM_EQ(Nil, _3516711_37);
-if (True == _3517178_37) {
+Obj _3517315_37 = R[1];
+Obj _3517316_37 = R[2];
+Obj _3518044_37 = PRIM_EQ(Nil, _3517315_37);
+if (True == _3518044_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516714_37 = makeNative(co->gc, 2, clofun23, 0, 2, _3516711_37, _3516712_37);
-Obj _3517184_37 = PRIM_ISCONS(_3516711_37);
-if (True == _3517184_37) {
-Obj _3517185_37 = PRIM_CAR(_3516711_37);
-Obj x = _3517185_37;
-Obj _3517186_37 = PRIM_CDR(_3516711_37);
-Obj y = _3517186_37;
-R[1] = y;
-R[2] = _3516712_37;
-R[3] = _3516714_37;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516712_37);
+Obj _3517492_37 = makeNative(co->gc, 2, clofun24, 0, 2, _3517315_37, _3517316_37);
+Obj _3518050_37 = PRIM_ISCONS(_3517315_37);
+if (True == _3518050_37) {
+Obj _3518051_37 = PRIM_CAR(_3517315_37);
+Obj _3517495_37 = _3518051_37;
+Obj _3518052_37 = PRIM_CDR(_3517315_37);
+Obj _3517496_37 = _3518052_37;
+R[1] = _3517496_37;
+R[2] = _3517316_37;
+R[3] = _3517492_37;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517495_37, _3517316_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3517492_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517187_37= co->res;
-Obj y = R[1];
-Obj _3516712_37 = R[2];
-Obj _3516714_37 = R[3];
-if (True == _3517187_37) {
+Obj _3518053_37= co->res;
+Obj _3517496_37 = R[1];
+Obj _3517316_37 = R[2];
+Obj _3517492_37 = R[3];
+if (True == _3518053_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, _3516712_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517496_37, _3517316_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516714_37);
+coraCall0(co, _3517492_37);
 return;
 }
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517179_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517179_37) {
-Obj _3517180_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517180_37;
-Obj _3517181_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517181_37;
-R[1] = x;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), y, closureRef(R[0], 1));
+Obj _3518045_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518045_37) {
+Obj _3518046_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517493_37 = _3518046_37;
+Obj _3518047_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517494_37 = _3518047_37;
+R[1] = _3517493_37;
+saveCont(co, clofun24, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517494_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7624,78 +7625,78 @@ return;
 }
 case 1:
 {
-Obj _3517182_37= co->res;
-Obj x = R[1];
-Obj _3517183_37 = makeCons(co->gc, x, _3517182_37);
-coraReturn(co, _3517183_37);
+Obj _3518048_37= co->res;
+Obj _3517493_37 = R[1];
+Obj _3518049_37 = makeCons(co->gc, _3517493_37, _3518048_37);
+coraReturn(co, _3518049_37);
 return;
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516706_37 = R[1];
-Obj _3516707_37 = R[2];
-Obj _3517167_37 = PRIM_EQ(Nil, _3516706_37);
-if (True == _3517167_37) {
-coraReturn(co, _3516707_37);
+Obj _3517310_37 = R[1];
+Obj _3517311_37 = R[2];
+Obj _3518033_37 = PRIM_EQ(Nil, _3517310_37);
+if (True == _3518033_37) {
+coraReturn(co, _3517311_37);
 return;
 } else {
-Obj _3516709_37 = makeNative(co->gc, 2, clofun21, 0, 2, _3516706_37, _3516707_37);
-Obj _3517173_37 = PRIM_ISCONS(_3516706_37);
-if (True == _3517173_37) {
-Obj _3517174_37 = PRIM_CAR(_3516706_37);
-Obj x = _3517174_37;
-Obj _3517175_37 = PRIM_CDR(_3516706_37);
-Obj y = _3517175_37;
-R[1] = y;
-R[2] = _3516707_37;
-R[3] = _3516709_37;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), x, _3516707_37);
+Obj _3517487_37 = makeNative(co->gc, 2, clofun22, 0, 2, _3517310_37, _3517311_37);
+Obj _3518039_37 = PRIM_ISCONS(_3517310_37);
+if (True == _3518039_37) {
+Obj _3518040_37 = PRIM_CAR(_3517310_37);
+Obj _3517490_37 = _3518040_37;
+Obj _3518041_37 = PRIM_CDR(_3517310_37);
+Obj _3517491_37 = _3518041_37;
+R[1] = _3517491_37;
+R[2] = _3517311_37;
+R[3] = _3517487_37;
+saveCont(co, clofun23, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517490_37, _3517311_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517487_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517176_37= co->res;
-Obj y = R[1];
-Obj _3516707_37 = R[2];
-Obj _3516709_37 = R[3];
-if (True == _3517176_37) {
+Obj _3518042_37= co->res;
+Obj _3517491_37 = R[1];
+Obj _3517311_37 = R[2];
+Obj _3517487_37 = R[3];
+if (True == _3518042_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, _3516707_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517491_37, _3517311_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516709_37);
+coraCall0(co, _3517487_37);
 return;
 }
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517168_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517168_37) {
-Obj _3517169_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj x = _3517169_37;
-Obj _3517170_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3517170_37;
-R[1] = x;
-saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), y, closureRef(R[0], 1));
+Obj _3518034_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3518034_37) {
+Obj _3518035_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517488_37 = _3518035_37;
+Obj _3518036_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517489_37 = _3518036_37;
+R[1] = _3517488_37;
+saveCont(co, clofun22, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517489_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7705,79 +7706,79 @@ return;
 }
 case 1:
 {
-Obj _3517171_37= co->res;
-Obj x = R[1];
-Obj _3517172_37 = makeCons(co->gc, x, _3517171_37);
-coraReturn(co, _3517172_37);
+Obj _3518037_37= co->res;
+Obj _3517488_37 = R[1];
+Obj _3518038_37 = makeCons(co->gc, _3517488_37, _3518037_37);
+coraReturn(co, _3518038_37);
 return;
 }
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516692_37 = R[1];
-Obj _3516693_37 = R[2];
-Obj _3516694_37 = R[3];
-Obj _3516836_37 = makeNative(co->gc, 2, clofun19, 1, 3, _3516692_37, _3516694_37, _3516693_37);
-R[1] = _3516694_37;
-R[2] = _3516836_37;
-saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3516694_37);
+Obj _3517296_37 = R[1];
+Obj _3517297_37 = R[2];
+Obj _3517298_37 = R[3];
+Obj _3517455_37 = makeNative(co->gc, 2, clofun20, 1, 3, _3517296_37, _3517298_37, _3517297_37);
+R[1] = _3517298_37;
+R[2] = _3517455_37;
+saveCont(co, clofun21, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517298_37);
 return;
 }
 case 1:
 {
-Obj _3517165_37= co->res;
-Obj _3516836_37 = R[1];
-if (True == _3517165_37) {
+Obj _3518031_37= co->res;
+Obj _3517455_37 = R[1];
+if (True == _3518031_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516836_37, True);
+coraCall1(co, _3517455_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3516836_37, False);
+coraCall1(co, _3517455_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3517164_37= co->res;
-Obj _3516694_37 = R[1];
-Obj _3516836_37 = R[2];
-if (True == _3517164_37) {
+Obj _3518030_37= co->res;
+Obj _3517298_37 = R[1];
+Obj _3517455_37 = R[2];
+if (True == _3518030_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516836_37, True);
+coraCall1(co, _3517455_37, True);
 return;
 } else {
-R[1] = _3516836_37;
-saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516694_37);
+R[1] = _3517455_37;
+saveCont(co, clofun21, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517298_37);
 return;
 }
 }
 case 3:
 {
-Obj _3517162_37= co->res;
-Obj _3516694_37 = R[1];
-Obj _3516836_37 = R[2];
-if (True == _3517162_37) {
+Obj _3518028_37= co->res;
+Obj _3517298_37 = R[1];
+Obj _3517455_37 = R[2];
+if (True == _3518028_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516836_37, True);
+coraCall1(co, _3517455_37, True);
 return;
 } else {
-Obj _3517163_37 = primIsString(_3516694_37);
-if (True == _3517163_37) {
+Obj _3518029_37 = primIsString(_3517298_37);
+if (True == _3518029_37) {
 co->ctx.sp = R;
-coraCall1(co, _3516836_37, True);
+coraCall1(co, _3517455_37, True);
 return;
 } else {
-R[1] = _3516694_37;
-R[2] = _3516836_37;
-saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), _3516694_37);
+R[1] = _3517298_37;
+R[2] = _3517455_37;
+saveCont(co, clofun21, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3517298_37);
 return;
 }
 }
@@ -7785,176 +7786,202 @@ return;
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516837_37 = R[1];
-if (True == _3516837_37) {
-Obj _3516973_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3516974_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3516973_37);
-coraReturn(co, _3516974_37);
-return;
-} else {
-Obj _3516696_37 = makeNative(co->gc, 3, clofun18, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3517149_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3517149_37) {
-Obj _3517150_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3517151_37 = PRIM_EQ(getBinding(co, packageID, 84).name, _3517150_37);
-if (True == _3517151_37) {
-Obj _3517152_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517153_37 = PRIM_ISCONS(_3517152_37);
-if (True == _3517153_37) {
-Obj _3517154_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517155_37 = PRIM_CAR(_3517154_37);
-Obj x = _3517155_37;
-Obj _3517156_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517157_37 = PRIM_CDR(_3517156_37);
-Obj _3517158_37 = PRIM_EQ(Nil, _3517157_37);
-if (True == _3517158_37) {
-R[1] = x;
-saveCont(co, clofun19, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), x, closureRef(R[0], 2));
+Obj _3517454_37 = R[1];
+if (True == _3517454_37) {
+Obj _3517833_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj _3517834_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517833_37);
+coraReturn(co, _3517834_37);
+return;
+} else {
+Obj _3517456_37 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj _3518015_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == _3518015_37) {
+Obj _3518016_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj _3518017_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518016_37);
+if (True == _3518017_37) {
+Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518019_37 = PRIM_ISCONS(_3518018_37);
+if (True == _3518019_37) {
+Obj _3518020_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518021_37 = PRIM_CAR(_3518020_37);
+Obj _3517486_37 = _3518021_37;
+Obj _3518022_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj _3518023_37 = PRIM_CDR(_3518022_37);
+Obj _3518024_37 = PRIM_EQ(Nil, _3518023_37);
+if (True == _3518024_37) {
+R[1] = _3517486_37;
+saveCont(co, clofun20, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), _3517486_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516696_37);
+coraCall0(co, _3517456_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516696_37);
+coraCall0(co, _3517456_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516696_37);
+coraCall0(co, _3517456_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516696_37);
+coraCall0(co, _3517456_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517159_37= co->res;
-Obj x = R[1];
-Obj _3517160_37 = makeCons(co->gc, x, Nil);
-Obj _3517161_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517160_37);
-coraReturn(co, _3517161_37);
+Obj _3518025_37= co->res;
+Obj _3517486_37 = R[1];
+Obj _3518026_37 = makeCons(co->gc, _3517486_37, Nil);
+Obj _3518027_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3518026_37);
+coraReturn(co, _3518027_37);
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516975_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3516975_37) {
-saveCont(co, clofun18, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 1));
-return;
-} else {
-Obj _3516698_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517127_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517127_37) {
-Obj _3517128_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517129_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517128_37);
-if (True == _3517129_37) {
-Obj _3517130_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517131_37 = PRIM_ISCONS(_3517130_37);
-if (True == _3517131_37) {
-Obj _3517132_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517133_37 = PRIM_CAR(_3517132_37);
-Obj args = _3517133_37;
-Obj _3517134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517135_37 = PRIM_CDR(_3517134_37);
-Obj _3517136_37 = PRIM_ISCONS(_3517135_37);
-if (True == _3517136_37) {
-Obj _3517137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517138_37 = PRIM_CDR(_3517137_37);
-Obj _3517139_37 = PRIM_CAR(_3517138_37);
-Obj body = _3517139_37;
-Obj _3517140_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517141_37 = PRIM_CDR(_3517140_37);
-Obj _3517142_37 = PRIM_CDR(_3517141_37);
-Obj _3517143_37 = PRIM_EQ(Nil, _3517142_37);
-if (True == _3517143_37) {
-R[1] = body;
-R[2] = args;
-saveCont(co, clofun18, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), args, closureRef(R[0], 1));
+Obj _3517835_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == _3517835_37) {
+saveCont(co, clofun19, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
+return;
+} else {
+Obj _3517458_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517991_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517991_37) {
+Obj _3517992_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517993_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517992_37);
+if (True == _3517993_37) {
+Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517995_37 = PRIM_ISCONS(_3517994_37);
+if (True == _3517995_37) {
+Obj _3517996_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517997_37 = PRIM_CAR(_3517996_37);
+Obj _3517484_37 = _3517997_37;
+Obj _3517998_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517999_37 = PRIM_CDR(_3517998_37);
+Obj _3518000_37 = PRIM_ISCONS(_3517999_37);
+if (True == _3518000_37) {
+Obj _3518001_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518002_37 = PRIM_CDR(_3518001_37);
+Obj _3518003_37 = PRIM_CAR(_3518002_37);
+Obj _3517485_37 = _3518003_37;
+Obj _3518004_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3518005_37 = PRIM_CDR(_3518004_37);
+Obj _3518006_37 = PRIM_CDR(_3518005_37);
+Obj _3518007_37 = PRIM_EQ(Nil, _3518006_37);
+if (True == _3518007_37) {
+R[1] = _3517485_37;
+R[2] = _3517484_37;
+saveCont(co, clofun19, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun18, 1, 0), _3517484_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3517458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3517458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3517458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3517458_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516698_37);
+coraCall0(co, _3517458_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3516977_37= co->res;
-Obj _3516978_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3516979_37 = makeCons(co->gc, getBinding(co, packageID, 93).name, _3516978_37);
-coraReturn(co, _3516979_37);
+Obj _3517839_37= co->res;
+Obj _3517840_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj _3517841_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, _3517840_37);
+coraReturn(co, _3517841_37);
 return;
 }
 case 2:
 {
-Obj _3516976_37= co->res;
-if (True == _3516976_37) {
-coraReturn(co, closureRef(R[0], 0));
+Obj _3517836_37= co->res;
+Obj _3517457_37 = _3517836_37;
+Obj _3517837_37 = PRIM_ISCONS(_3517457_37);
+if (True == _3517837_37) {
+Obj _3517838_37 = PRIM_CDR(_3517457_37);
+coraReturn(co, _3517838_37);
 return;
 } else {
-saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 94)), closureRef(R[0], 0), closureRef(R[0], 2));
+saveCont(co, clofun19, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 }
 case 3:
 {
-Obj _3517145_37= co->res;
-Obj args = R[1];
-Obj _3517146_37 = makeCons(co->gc, _3517145_37, Nil);
-Obj _3517147_37 = makeCons(co->gc, args, _3517146_37);
-Obj _3517148_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517147_37);
-coraReturn(co, _3517148_37);
+Obj _3518011_37= co->res;
+Obj _3517484_37 = R[1];
+Obj _3518012_37 = makeCons(co->gc, _3518011_37, Nil);
+Obj _3518013_37 = makeCons(co->gc, _3517484_37, _3518012_37);
+Obj _3518014_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518013_37);
+coraReturn(co, _3518014_37);
 return;
 }
 case 4:
 {
-Obj _3517144_37= co->res;
-Obj body = R[1];
-Obj args = R[2];
-R[1] = args;
-saveCont(co, clofun18, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517144_37, closureRef(R[0], 2), body);
+Obj _3518010_37= co->res;
+Obj _3517485_37 = R[1];
+Obj _3517484_37 = R[2];
+R[1] = _3517484_37;
+saveCont(co, clofun19, 3, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3518010_37, closureRef(R[0], 2), _3517485_37);
+return;
+}
+case 5:
+{
+Obj _3518009_37= co->res;
+Obj _3517485_37 = R[1];
+Obj _3517484_37 = R[2];
+R[1] = _3517485_37;
+R[2] = _3517484_37;
+saveCont(co, clofun19, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3518009_37, closureRef(R[0], 1));
+return;
+}
+}
+}
+
+static void clofun18(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj x = R[1];
+Obj _3518008_37 = makeCons(co->gc, x, x);
+coraReturn(co, _3518008_37);
 return;
 }
 }
@@ -7964,74 +7991,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516699_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517095_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517095_37) {
-Obj _3517096_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517097_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517096_37);
-if (True == _3517097_37) {
-Obj _3517098_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517099_37 = PRIM_ISCONS(_3517098_37);
-if (True == _3517099_37) {
-Obj _3517100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517101_37 = PRIM_CAR(_3517100_37);
-Obj _3517102_37 = PRIM_ISCONS(_3517101_37);
-if (True == _3517102_37) {
-Obj _3517103_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517104_37 = PRIM_CAR(_3517103_37);
-Obj _3517105_37 = PRIM_CAR(_3517104_37);
-Obj _3517106_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517105_37);
-if (True == _3517106_37) {
-Obj _3517107_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517108_37 = PRIM_CAR(_3517107_37);
-Obj _3517109_37 = PRIM_CDR(_3517108_37);
-Obj exp1 = _3517109_37;
-Obj _3517110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517111_37 = PRIM_CDR(_3517110_37);
-Obj exp2 = _3517111_37;
-Obj _3517112_37 = primGenSym(co);
-Obj f = _3517112_37;
-Obj _3517113_37 = primGenSym(co);
-Obj v = _3517113_37;
-Obj _3517114_37 = makeCons(co->gc, v, Nil);
-Obj _3517115_37 = makeCons(co->gc, v, exp2);
-Obj _3517116_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517115_37);
-Obj _3517117_37 = makeCons(co->gc, _3517116_37, Nil);
-Obj _3517118_37 = makeCons(co->gc, _3517114_37, _3517117_37);
-Obj _3517119_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3517118_37);
-Obj _3517120_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp1);
-Obj _3517121_37 = makeCons(co->gc, _3517120_37, Nil);
-Obj _3517122_37 = makeCons(co->gc, f, _3517121_37);
-Obj _3517123_37 = makeCons(co->gc, _3517122_37, Nil);
-Obj _3517124_37 = makeCons(co->gc, _3517119_37, _3517123_37);
-Obj _3517125_37 = makeCons(co->gc, f, _3517124_37);
-Obj _3517126_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517125_37);
+Obj _3517459_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517959_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517959_37) {
+Obj _3517960_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517961_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517960_37);
+if (True == _3517961_37) {
+Obj _3517962_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517963_37 = PRIM_ISCONS(_3517962_37);
+if (True == _3517963_37) {
+Obj _3517964_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517965_37 = PRIM_CAR(_3517964_37);
+Obj _3517966_37 = PRIM_ISCONS(_3517965_37);
+if (True == _3517966_37) {
+Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517968_37 = PRIM_CAR(_3517967_37);
+Obj _3517969_37 = PRIM_CAR(_3517968_37);
+Obj _3517970_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517969_37);
+if (True == _3517970_37) {
+Obj _3517971_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517972_37 = PRIM_CAR(_3517971_37);
+Obj _3517973_37 = PRIM_CDR(_3517972_37);
+Obj _3517480_37 = _3517973_37;
+Obj _3517974_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517975_37 = PRIM_CDR(_3517974_37);
+Obj _3517481_37 = _3517975_37;
+Obj _3517976_37 = primGenSym(co);
+Obj _3517482_37 = _3517976_37;
+Obj _3517977_37 = primGenSym(co);
+Obj _3517483_37 = _3517977_37;
+Obj _3517978_37 = makeCons(co->gc, _3517483_37, Nil);
+Obj _3517979_37 = makeCons(co->gc, _3517483_37, _3517481_37);
+Obj _3517980_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517979_37);
+Obj _3517981_37 = makeCons(co->gc, _3517980_37, Nil);
+Obj _3517982_37 = makeCons(co->gc, _3517978_37, _3517981_37);
+Obj _3517983_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517982_37);
+Obj _3517984_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517480_37);
+Obj _3517985_37 = makeCons(co->gc, _3517984_37, Nil);
+Obj _3517986_37 = makeCons(co->gc, _3517482_37, _3517985_37);
+Obj _3517987_37 = makeCons(co->gc, _3517986_37, Nil);
+Obj _3517988_37 = makeCons(co->gc, _3517983_37, _3517987_37);
+Obj _3517989_37 = makeCons(co->gc, _3517482_37, _3517988_37);
+Obj _3517990_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517989_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517126_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517990_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3517459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3517459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3517459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3517459_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516699_37);
+coraCall0(co, _3517459_37);
 return;
 }
 }
@@ -8042,42 +8069,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516700_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517088_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517088_37) {
-Obj _3517089_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517090_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517089_37);
-if (True == _3517090_37) {
-Obj _3517091_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3517091_37;
-R[1] = args;
+Obj _3517460_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517952_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517952_37) {
+Obj _3517953_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517954_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517953_37);
+if (True == _3517954_37) {
+Obj _3517955_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517479_37 = _3517955_37;
+R[1] = _3517479_37;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517460_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516700_37);
+coraCall0(co, _3517460_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517093_37= co->res;
-Obj _3517094_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517093_37);
-coraReturn(co, _3517094_37);
+Obj _3517957_37= co->res;
+Obj _3517958_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517957_37);
+coraReturn(co, _3517958_37);
 return;
 }
 case 2:
 {
-Obj _3517092_37= co->res;
-Obj args = R[1];
+Obj _3517956_37= co->res;
+Obj _3517479_37 = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3517092_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517956_37, _3517479_37);
 return;
 }
 }
@@ -8087,78 +8114,78 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516701_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517066_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517066_37) {
-Obj _3517067_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517068_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3517067_37);
-if (True == _3517068_37) {
-Obj _3517069_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517070_37 = PRIM_ISCONS(_3517069_37);
-if (True == _3517070_37) {
-Obj _3517071_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517072_37 = PRIM_CAR(_3517071_37);
-Obj x = _3517072_37;
-Obj _3517073_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517074_37 = PRIM_CDR(_3517073_37);
-Obj _3517075_37 = PRIM_ISCONS(_3517074_37);
-if (True == _3517075_37) {
-Obj _3517076_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517077_37 = PRIM_CDR(_3517076_37);
-Obj _3517078_37 = PRIM_CAR(_3517077_37);
-Obj y = _3517078_37;
-Obj _3517079_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517080_37 = PRIM_CDR(_3517079_37);
-Obj _3517081_37 = PRIM_CDR(_3517080_37);
-Obj _3517082_37 = PRIM_EQ(Nil, _3517081_37);
-if (True == _3517082_37) {
-R[1] = y;
+Obj _3517461_37 = makeNative(co->gc, 4, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517930_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517930_37) {
+Obj _3517931_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517932_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517931_37);
+if (True == _3517932_37) {
+Obj _3517933_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517934_37 = PRIM_ISCONS(_3517933_37);
+if (True == _3517934_37) {
+Obj _3517935_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517936_37 = PRIM_CAR(_3517935_37);
+Obj _3517477_37 = _3517936_37;
+Obj _3517937_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517938_37 = PRIM_CDR(_3517937_37);
+Obj _3517939_37 = PRIM_ISCONS(_3517938_37);
+if (True == _3517939_37) {
+Obj _3517940_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517941_37 = PRIM_CDR(_3517940_37);
+Obj _3517942_37 = PRIM_CAR(_3517941_37);
+Obj _3517478_37 = _3517942_37;
+Obj _3517943_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517944_37 = PRIM_CDR(_3517943_37);
+Obj _3517945_37 = PRIM_CDR(_3517944_37);
+Obj _3517946_37 = PRIM_EQ(Nil, _3517945_37);
+if (True == _3517946_37) {
+R[1] = _3517478_37;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), x);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517477_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517461_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516701_37);
+coraCall0(co, _3517461_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517084_37= co->res;
-Obj _3517083_37 = R[1];
-Obj _3517085_37 = makeCons(co->gc, _3517084_37, Nil);
-Obj _3517086_37 = makeCons(co->gc, _3517083_37, _3517085_37);
-Obj _3517087_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, _3517086_37);
-coraReturn(co, _3517087_37);
+Obj _3517948_37= co->res;
+Obj _3517947_37 = R[1];
+Obj _3517949_37 = makeCons(co->gc, _3517948_37, Nil);
+Obj _3517950_37 = makeCons(co->gc, _3517947_37, _3517949_37);
+Obj _3517951_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517950_37);
+coraReturn(co, _3517951_37);
 return;
 }
 case 2:
 {
-Obj _3517083_37= co->res;
-Obj y = R[1];
-R[1] = _3517083_37;
+Obj _3517947_37= co->res;
+Obj _3517478_37 = R[1];
+R[1] = _3517947_37;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517478_37);
 return;
 }
 }
@@ -8168,100 +8195,105 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516702_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517033_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517033_37) {
-Obj _3517034_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517035_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517034_37);
-if (True == _3517035_37) {
-Obj _3517036_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517037_37 = PRIM_ISCONS(_3517036_37);
-if (True == _3517037_37) {
-Obj _3517038_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517039_37 = PRIM_CAR(_3517038_37);
-Obj a = _3517039_37;
-Obj _3517040_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517041_37 = PRIM_CDR(_3517040_37);
-Obj _3517042_37 = PRIM_ISCONS(_3517041_37);
-if (True == _3517042_37) {
-Obj _3517043_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517044_37 = PRIM_CDR(_3517043_37);
-Obj _3517045_37 = PRIM_CAR(_3517044_37);
-Obj b = _3517045_37;
-Obj _3517046_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517047_37 = PRIM_CDR(_3517046_37);
-Obj _3517048_37 = PRIM_CDR(_3517047_37);
-Obj _3517049_37 = PRIM_ISCONS(_3517048_37);
-if (True == _3517049_37) {
-Obj _3517050_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517051_37 = PRIM_CDR(_3517050_37);
-Obj _3517052_37 = PRIM_CDR(_3517051_37);
-Obj _3517053_37 = PRIM_CAR(_3517052_37);
-Obj c = _3517053_37;
-Obj _3517054_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517055_37 = PRIM_CDR(_3517054_37);
-Obj _3517056_37 = PRIM_CDR(_3517055_37);
-Obj _3517057_37 = PRIM_CDR(_3517056_37);
-Obj _3517058_37 = PRIM_EQ(Nil, _3517057_37);
-if (True == _3517058_37) {
-R[1] = c;
-R[2] = a;
+Obj _3517462_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517895_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517895_37) {
+Obj _3517896_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517897_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517896_37);
+if (True == _3517897_37) {
+Obj _3517898_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517899_37 = PRIM_ISCONS(_3517898_37);
+if (True == _3517899_37) {
+Obj _3517900_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517901_37 = PRIM_CAR(_3517900_37);
+Obj _3517473_37 = _3517901_37;
+Obj _3517902_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517903_37 = PRIM_CDR(_3517902_37);
+Obj _3517904_37 = PRIM_ISCONS(_3517903_37);
+if (True == _3517904_37) {
+Obj _3517905_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517906_37 = PRIM_CDR(_3517905_37);
+Obj _3517907_37 = PRIM_CAR(_3517906_37);
+Obj _3517474_37 = _3517907_37;
+Obj _3517908_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517909_37 = PRIM_CDR(_3517908_37);
+Obj _3517910_37 = PRIM_CDR(_3517909_37);
+Obj _3517911_37 = PRIM_ISCONS(_3517910_37);
+if (True == _3517911_37) {
+Obj _3517912_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517913_37 = PRIM_CDR(_3517912_37);
+Obj _3517914_37 = PRIM_CDR(_3517913_37);
+Obj _3517915_37 = PRIM_CAR(_3517914_37);
+Obj _3517475_37 = _3517915_37;
+Obj _3517916_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517917_37 = PRIM_CDR(_3517916_37);
+Obj _3517918_37 = PRIM_CDR(_3517917_37);
+Obj _3517919_37 = PRIM_CDR(_3517918_37);
+Obj _3517920_37 = PRIM_EQ(Nil, _3517919_37);
+if (True == _3517920_37) {
+Obj _3517921_37 = primGenSym(co);
+Obj _3517476_37 = _3517921_37;
+R[1] = _3517473_37;
+R[2] = _3517475_37;
+R[3] = _3517476_37;
 saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517474_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, _3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, _3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, _3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, _3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, _3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516702_37);
+coraCall0(co, _3517462_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517061_37= co->res;
-Obj _3517059_37 = R[1];
-Obj a = R[2];
-Obj _3517062_37 = makeCons(co->gc, _3517061_37, Nil);
-Obj _3517063_37 = makeCons(co->gc, _3517059_37, _3517062_37);
-Obj _3517064_37 = makeCons(co->gc, a, _3517063_37);
-Obj _3517065_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517064_37);
-coraReturn(co, _3517065_37);
+Obj _3517925_37= co->res;
+Obj _3517922_37 = R[1];
+Obj _3517476_37 = R[2];
+Obj _3517926_37 = makeCons(co->gc, _3517925_37, Nil);
+Obj _3517927_37 = makeCons(co->gc, _3517922_37, _3517926_37);
+Obj _3517928_37 = makeCons(co->gc, _3517476_37, _3517927_37);
+Obj _3517929_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517928_37);
+coraReturn(co, _3517929_37);
 return;
 }
 case 2:
 {
-Obj _3517059_37= co->res;
-Obj c = R[1];
-Obj a = R[2];
-Obj _3517060_37 = makeCons(co->gc, a, closureRef(R[0], 1));
-R[1] = _3517059_37;
-R[2] = a;
+Obj _3517922_37= co->res;
+Obj _3517473_37 = R[1];
+Obj _3517475_37 = R[2];
+Obj _3517476_37 = R[3];
+Obj _3517923_37 = makeCons(co->gc, _3517473_37, _3517476_37);
+Obj _3517924_37 = makeCons(co->gc, _3517923_37, closureRef(R[0], 1));
+R[1] = _3517922_37;
+R[2] = _3517476_37;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517060_37, closureRef(R[0], 2), c);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517924_37, closureRef(R[0], 2), _3517475_37);
 return;
 }
 }
@@ -8271,85 +8303,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516703_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517001_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517001_37) {
-Obj _3517002_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517003_37 = PRIM_ISCONS(_3517002_37);
-if (True == _3517003_37) {
-Obj _3517004_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517005_37 = PRIM_CAR(_3517004_37);
-Obj _3517006_37 = PRIM_EQ(getBinding(co, packageID, 89).name, _3517005_37);
-if (True == _3517006_37) {
-Obj _3517007_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517008_37 = PRIM_CDR(_3517007_37);
-Obj exp1 = _3517008_37;
-Obj _3517009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517010_37 = PRIM_ISCONS(_3517009_37);
-if (True == _3517010_37) {
-Obj _3517011_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517012_37 = PRIM_CAR(_3517011_37);
-Obj _3517013_37 = PRIM_ISCONS(_3517012_37);
-if (True == _3517013_37) {
-Obj _3517014_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517015_37 = PRIM_CAR(_3517014_37);
-Obj _3517016_37 = PRIM_CAR(_3517015_37);
-Obj _3517017_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517016_37);
-if (True == _3517017_37) {
-Obj _3517018_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517019_37 = PRIM_CAR(_3517018_37);
-Obj _3517020_37 = PRIM_CDR(_3517019_37);
-Obj exp2 = _3517020_37;
-Obj _3517021_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517022_37 = PRIM_CDR(_3517021_37);
-Obj _3517023_37 = PRIM_EQ(Nil, _3517022_37);
-if (True == _3517023_37) {
-Obj _3517024_37 = primGenSym(co);
-Obj f = _3517024_37;
-Obj _3517025_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, exp1);
-Obj _3517026_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, exp2);
-Obj _3517027_37 = makeCons(co->gc, _3517026_37, Nil);
-Obj _3517028_37 = makeCons(co->gc, f, _3517027_37);
-Obj _3517029_37 = makeCons(co->gc, _3517028_37, Nil);
-Obj _3517030_37 = makeCons(co->gc, _3517025_37, _3517029_37);
-Obj _3517031_37 = makeCons(co->gc, f, _3517030_37);
-Obj _3517032_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517031_37);
+Obj _3517463_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj _3517863_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517863_37) {
+Obj _3517864_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517865_37 = PRIM_ISCONS(_3517864_37);
+if (True == _3517865_37) {
+Obj _3517866_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517867_37 = PRIM_CAR(_3517866_37);
+Obj _3517868_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517867_37);
+if (True == _3517868_37) {
+Obj _3517869_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517870_37 = PRIM_CDR(_3517869_37);
+Obj _3517470_37 = _3517870_37;
+Obj _3517871_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517872_37 = PRIM_ISCONS(_3517871_37);
+if (True == _3517872_37) {
+Obj _3517873_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517874_37 = PRIM_CAR(_3517873_37);
+Obj _3517875_37 = PRIM_ISCONS(_3517874_37);
+if (True == _3517875_37) {
+Obj _3517876_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517877_37 = PRIM_CAR(_3517876_37);
+Obj _3517878_37 = PRIM_CAR(_3517877_37);
+Obj _3517879_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517878_37);
+if (True == _3517879_37) {
+Obj _3517880_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517881_37 = PRIM_CAR(_3517880_37);
+Obj _3517882_37 = PRIM_CDR(_3517881_37);
+Obj _3517471_37 = _3517882_37;
+Obj _3517883_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517884_37 = PRIM_CDR(_3517883_37);
+Obj _3517885_37 = PRIM_EQ(Nil, _3517884_37);
+if (True == _3517885_37) {
+Obj _3517886_37 = primGenSym(co);
+Obj _3517472_37 = _3517886_37;
+Obj _3517887_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517470_37);
+Obj _3517888_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517471_37);
+Obj _3517889_37 = makeCons(co->gc, _3517888_37, Nil);
+Obj _3517890_37 = makeCons(co->gc, _3517472_37, _3517889_37);
+Obj _3517891_37 = makeCons(co->gc, _3517890_37, Nil);
+Obj _3517892_37 = makeCons(co->gc, _3517887_37, _3517891_37);
+Obj _3517893_37 = makeCons(co->gc, _3517472_37, _3517892_37);
+Obj _3517894_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517893_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517032_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517894_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516703_37);
+coraCall0(co, _3517463_37);
 return;
 }
 }
@@ -8360,90 +8392,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516704_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3516981_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516981_37) {
-Obj _3516982_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj op = _3516982_37;
-Obj _3516983_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj args = _3516983_37;
-R[1] = op;
-R[2] = args;
-R[3] = _3516704_37;
+Obj _3517464_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj _3517843_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517843_37) {
+Obj _3517844_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517465_37 = _3517844_37;
+Obj _3517845_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517466_37 = _3517845_37;
+R[1] = _3517465_37;
+R[2] = _3517466_37;
+R[3] = _3517464_37;
 saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3517465_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516704_37);
+coraCall0(co, _3517464_37);
 return;
 }
 }
 case 1:
 {
-Obj _3516991_37= co->res;
-Obj _3516989_37 = R[1];
-Obj _3516992_37 = makeCons(co->gc, _3516989_37, _3516991_37);
-coraReturn(co, _3516992_37);
+Obj _3517853_37= co->res;
+Obj _3517851_37 = R[1];
+Obj _3517854_37 = makeCons(co->gc, _3517851_37, _3517853_37);
+coraReturn(co, _3517854_37);
 return;
 }
 case 2:
 {
-Obj _3516990_37= co->res;
-Obj args = R[1];
-Obj _3516989_37 = R[2];
-R[1] = _3516989_37;
+Obj _3517852_37= co->res;
+Obj _3517466_37 = R[1];
+Obj _3517851_37 = R[2];
+R[1] = _3517851_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516990_37, args);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517852_37, _3517466_37);
 return;
 }
 case 3:
 {
-Obj _3516997_37= co->res;
-Obj tmp = R[1];
-Obj _3516998_37 = makeCons(co->gc, _3516997_37, Nil);
-Obj _3516999_37 = makeCons(co->gc, tmp, _3516998_37);
-Obj _3517000_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3516999_37);
+Obj _3517859_37= co->res;
+Obj _3517469_37 = R[1];
+Obj _3517860_37 = makeCons(co->gc, _3517859_37, Nil);
+Obj _3517861_37 = makeCons(co->gc, _3517469_37, _3517860_37);
+Obj _3517862_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517861_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517000_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517862_37);
 return;
 }
 case 4:
 {
-Obj _3516995_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj tmp = _3516995_37;
-Obj _3516996_37 = makeCons(co->gc, op, args);
-R[1] = tmp;
+Obj _3517857_37= co->res;
+Obj _3517465_37 = R[1];
+Obj _3517466_37 = R[2];
+Obj _3517469_37 = _3517857_37;
+Obj _3517858_37 = makeCons(co->gc, _3517465_37, _3517466_37);
+R[1] = _3517469_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 88)), _3516996_37, tmp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3517858_37, _3517469_37);
 return;
 }
 case 5:
 {
-Obj _3516986_37= co->res;
-Obj required = R[1];
-Obj op = R[2];
-Obj args = R[3];
-Obj provided = _3516986_37;
-Obj _3516987_37 = PRIM_EQ(required, provided);
-if (True == _3516987_37) {
-Obj _3516988_37 = makeCons(co->gc, op, Nil);
-Obj _3516989_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3516988_37);
-R[1] = args;
-R[2] = _3516989_37;
+Obj _3517848_37= co->res;
+Obj _3517467_37 = R[1];
+Obj _3517465_37 = R[2];
+Obj _3517466_37 = R[3];
+Obj _3517468_37 = _3517848_37;
+Obj _3517849_37 = PRIM_EQ(_3517467_37, _3517468_37);
+if (True == _3517849_37) {
+Obj _3517850_37 = makeCons(co->gc, _3517465_37, Nil);
+Obj _3517851_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517850_37);
+R[1] = _3517466_37;
+R[2] = _3517851_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3516993_37 = PRIM_GT(required, provided);
-if (True == _3516993_37) {
-Obj _3516994_37 = PRIM_SUB(required, provided);
-R[1] = op;
-R[2] = args;
+Obj _3517855_37 = PRIM_GT(_3517467_37, _3517468_37);
+if (True == _3517855_37) {
+Obj _3517856_37 = PRIM_SUB(_3517467_37, _3517468_37);
+R[1] = _3517465_37;
+R[2] = _3517466_37;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516994_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517856_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8454,32 +8486,32 @@ return;
 }
 case 6:
 {
-Obj _3516985_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj required = _3516985_37;
-R[1] = required;
-R[2] = op;
-R[3] = args;
+Obj _3517847_37= co->res;
+Obj _3517465_37 = R[1];
+Obj _3517466_37 = R[2];
+Obj _3517467_37 = _3517847_37;
+R[1] = _3517467_37;
+R[2] = _3517465_37;
+R[3] = _3517466_37;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), args);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517466_37);
 return;
 }
 case 7:
 {
-Obj _3516984_37= co->res;
-Obj op = R[1];
-Obj args = R[2];
-Obj _3516704_37 = R[3];
-if (True == _3516984_37) {
-R[1] = op;
-R[2] = args;
+Obj _3517846_37= co->res;
+Obj _3517465_37 = R[1];
+Obj _3517466_37 = R[2];
+Obj _3517464_37 = R[3];
+if (True == _3517846_37) {
+R[1] = _3517465_37;
+R[2] = _3517466_37;
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), op);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), _3517465_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516704_37);
+coraCall0(co, _3517464_37);
 return;
 }
 }
@@ -8496,9 +8528,9 @@ return;
 }
 case 1:
 {
-Obj _3516980_37= co->res;
+Obj _3517842_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 92)), _3516980_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517842_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8508,18 +8540,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516688_37 = R[1];
-Obj _3516689_37 = R[2];
-Obj _3516968_37 = PRIM_EQ(MAKE_NUMBER(0), _3516688_37);
-if (True == _3516968_37) {
-coraReturn(co, _3516689_37);
+Obj _3517292_37 = R[1];
+Obj _3517293_37 = R[2];
+Obj _3517828_37 = PRIM_EQ(MAKE_NUMBER(0), _3517292_37);
+if (True == _3517828_37) {
+coraReturn(co, _3517293_37);
 return;
 } else {
-Obj _3516969_37 = PRIM_SUB(_3516688_37, MAKE_NUMBER(1));
-Obj _3516970_37 = primGenSym(co);
-Obj _3516971_37 = makeCons(co->gc, _3516970_37, _3516689_37);
+Obj _3517829_37 = PRIM_SUB(_3517292_37, MAKE_NUMBER(1));
+Obj _3517830_37 = primGenSym(co);
+Obj _3517831_37 = makeCons(co->gc, _3517830_37, _3517293_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3516969_37, _3516971_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517829_37, _3517831_37);
 return;
 }
 }
@@ -8537,24 +8569,24 @@ return;
 }
 case 1:
 {
-Obj _3516966_37= co->res;
-Obj find = R[1];
-if (True == _3516966_37) {
+Obj _3517826_37= co->res;
+Obj _3517452_37 = R[1];
+if (True == _3517826_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517452_37);
 return;
 }
 }
 case 2:
 {
-Obj _3516965_37= co->res;
-Obj find = _3516965_37;
-R[1] = find;
+Obj _3517825_37= co->res;
+Obj _3517452_37 = _3517825_37;
+R[1] = _3517452_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517452_37);
 return;
 }
 }
@@ -8571,24 +8603,24 @@ return;
 }
 case 1:
 {
-Obj _3516963_37= co->res;
-Obj find = R[1];
-if (True == _3516963_37) {
+Obj _3517823_37= co->res;
+Obj _3517451_37 = R[1];
+if (True == _3517823_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517451_37);
 return;
 }
 }
 case 2:
 {
-Obj _3516962_37= co->res;
-Obj find = _3516962_37;
-R[1] = find;
+Obj _3517822_37= co->res;
+Obj _3517451_37 = _3517822_37;
+R[1] = _3517451_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), find);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517451_37);
 return;
 }
 }
@@ -8605,16 +8637,16 @@ return;
 }
 case 1:
 {
-Obj _3516959_37= co->res;
-Obj _3516960_37 = primNot(_3516959_37);
-coraReturn(co, _3516960_37);
+Obj _3517819_37= co->res;
+Obj _3517820_37 = primNot(_3517819_37);
+coraReturn(co, _3517820_37);
 return;
 }
 case 2:
 {
-Obj _3516958_37= co->res;
+Obj _3517818_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3516958_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517818_37);
 return;
 }
 }
@@ -8624,23 +8656,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516684_37 = R[1];
-Obj _3516685_37 = R[2];
-Obj _3516882_37 = PRIM_EQ(Nil, _3516685_37);
-if (True == _3516882_37) {
+Obj _3517288_37 = R[1];
+Obj _3517289_37 = R[2];
+Obj _3517742_37 = PRIM_EQ(Nil, _3517289_37);
+if (True == _3517742_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3516883_37 = PRIM_ISCONS(_3516685_37);
-if (True == _3516883_37) {
-Obj _3516884_37 = PRIM_CAR(_3516685_37);
-Obj hd = _3516884_37;
-Obj _3516885_37 = PRIM_CDR(_3516685_37);
-Obj tl = _3516885_37;
-R[1] = _3516684_37;
-R[2] = tl;
+Obj _3517743_37 = PRIM_ISCONS(_3517289_37);
+if (True == _3517743_37) {
+Obj _3517744_37 = PRIM_CAR(_3517289_37);
+Obj _3517449_37 = _3517744_37;
+Obj _3517745_37 = PRIM_CDR(_3517289_37);
+Obj _3517450_37 = _3517745_37;
+R[1] = _3517288_37;
+R[2] = _3517450_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3516684_37, hd);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517288_37, _3517449_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8651,13 +8683,13 @@ return;
 }
 case 1:
 {
-Obj _3516886_37= co->res;
-Obj _3516684_37 = R[1];
-Obj tl = R[2];
-Obj _3516887_37 = PRIM_LT(_3516886_37, MAKE_NUMBER(0));
-if (True == _3516887_37) {
+Obj _3517746_37= co->res;
+Obj _3517288_37 = R[1];
+Obj _3517450_37 = R[2];
+Obj _3517747_37 = PRIM_LT(_3517746_37, MAKE_NUMBER(0));
+if (True == _3517747_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3516684_37, tl);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3517288_37, _3517450_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8684,32 +8716,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516678_37 = R[1];
-Obj _3516679_37 = R[2];
-Obj _3516680_37 = R[3];
-Obj _3516871_37 = PRIM_EQ(Nil, _3516680_37);
-if (True == _3516871_37) {
+Obj _3517282_37 = R[1];
+Obj _3517283_37 = R[2];
+Obj _3517284_37 = R[3];
+Obj _3517731_37 = PRIM_EQ(Nil, _3517284_37);
+if (True == _3517731_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3516682_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3516680_37, _3516678_37, _3516679_37);
-Obj _3516876_37 = PRIM_ISCONS(_3516680_37);
-if (True == _3516876_37) {
-Obj _3516877_37 = PRIM_CAR(_3516680_37);
-Obj a = _3516877_37;
-Obj _3516878_37 = PRIM_CDR(_3516680_37);
-Obj _3516879_37 = PRIM_EQ(_3516679_37, a);
-if (True == _3516879_37) {
-coraReturn(co, _3516678_37);
+Obj _3517446_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3517284_37, _3517282_37, _3517283_37);
+Obj _3517736_37 = PRIM_ISCONS(_3517284_37);
+if (True == _3517736_37) {
+Obj _3517737_37 = PRIM_CAR(_3517284_37);
+Obj _3517448_37 = _3517737_37;
+Obj _3517738_37 = PRIM_CDR(_3517284_37);
+Obj _3517739_37 = PRIM_EQ(_3517283_37, _3517448_37);
+if (True == _3517739_37) {
+coraReturn(co, _3517282_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3517446_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516682_37);
+coraCall0(co, _3517446_37);
 return;
 }
 }
@@ -8721,14 +8753,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516872_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516872_37) {
-Obj _3516873_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj b = _3516874_37;
-Obj _3516875_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj _3517732_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517732_37) {
+Obj _3517733_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517734_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517447_37 = _3517734_37;
+Obj _3517735_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3516875_37, closureRef(R[0], 2), b);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3517735_37, closureRef(R[0], 2), _3517447_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8743,24 +8775,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516673_37 = R[1];
-Obj _3516674_37 = R[2];
-Obj _3516675_37 = R[3];
-Obj _3516865_37 = PRIM_EQ(Nil, _3516675_37);
-if (True == _3516865_37) {
-coraReturn(co, _3516674_37);
+Obj _3517277_37 = R[1];
+Obj _3517278_37 = R[2];
+Obj _3517279_37 = R[3];
+Obj _3517725_37 = PRIM_EQ(Nil, _3517279_37);
+if (True == _3517725_37) {
+coraReturn(co, _3517278_37);
 return;
 } else {
-Obj _3516866_37 = PRIM_ISCONS(_3516675_37);
-if (True == _3516866_37) {
-Obj _3516867_37 = PRIM_CAR(_3516675_37);
-Obj x = _3516867_37;
-Obj _3516868_37 = PRIM_CDR(_3516675_37);
-Obj y = _3516868_37;
-R[1] = _3516673_37;
-R[2] = y;
+Obj _3517726_37 = PRIM_ISCONS(_3517279_37);
+if (True == _3517726_37) {
+Obj _3517727_37 = PRIM_CAR(_3517279_37);
+Obj _3517444_37 = _3517727_37;
+Obj _3517728_37 = PRIM_CDR(_3517279_37);
+Obj _3517445_37 = _3517728_37;
+R[1] = _3517277_37;
+R[2] = _3517445_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3516673_37, _3516674_37, x);
+coraCall2(co, _3517277_37, _3517278_37, _3517444_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8771,11 +8803,11 @@ return;
 }
 case 1:
 {
-Obj _3516869_37= co->res;
-Obj _3516673_37 = R[1];
-Obj y = R[2];
+Obj _3517729_37= co->res;
+Obj _3517277_37 = R[1];
+Obj _3517445_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3516673_37, _3516869_37, y);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3517277_37, _3517729_37, _3517445_37);
 return;
 }
 }
@@ -8785,44 +8817,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516668_37 = R[1];
-Obj _3516669_37 = R[2];
-Obj _3516850_37 = PRIM_EQ(Nil, _3516669_37);
-if (True == _3516850_37) {
+Obj _3517272_37 = R[1];
+Obj _3517273_37 = R[2];
+Obj _3517710_37 = PRIM_EQ(Nil, _3517273_37);
+if (True == _3517710_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3516671_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3516669_37, _3516668_37);
-Obj _3516854_37 = PRIM_ISCONS(_3516669_37);
-if (True == _3516854_37) {
-Obj _3516855_37 = PRIM_CAR(_3516669_37);
-Obj _3516856_37 = PRIM_ISCONS(_3516855_37);
-if (True == _3516856_37) {
-Obj _3516857_37 = PRIM_CAR(_3516669_37);
-Obj _3516858_37 = PRIM_CAR(_3516857_37);
-Obj x = _3516858_37;
-Obj _3516859_37 = PRIM_CAR(_3516669_37);
-Obj _3516860_37 = PRIM_CDR(_3516859_37);
-Obj y = _3516860_37;
-Obj _3516861_37 = PRIM_CDR(_3516669_37);
-Obj _3516862_37 = PRIM_EQ(_3516668_37, x);
-if (True == _3516862_37) {
-Obj _3516863_37 = makeCons(co->gc, x, y);
-coraReturn(co, _3516863_37);
+Obj _3517440_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3517273_37, _3517272_37);
+Obj _3517714_37 = PRIM_ISCONS(_3517273_37);
+if (True == _3517714_37) {
+Obj _3517715_37 = PRIM_CAR(_3517273_37);
+Obj _3517716_37 = PRIM_ISCONS(_3517715_37);
+if (True == _3517716_37) {
+Obj _3517717_37 = PRIM_CAR(_3517273_37);
+Obj _3517718_37 = PRIM_CAR(_3517717_37);
+Obj _3517442_37 = _3517718_37;
+Obj _3517719_37 = PRIM_CAR(_3517273_37);
+Obj _3517720_37 = PRIM_CDR(_3517719_37);
+Obj _3517443_37 = _3517720_37;
+Obj _3517721_37 = PRIM_CDR(_3517273_37);
+Obj _3517722_37 = PRIM_EQ(_3517272_37, _3517442_37);
+if (True == _3517722_37) {
+Obj _3517723_37 = makeCons(co->gc, _3517442_37, _3517443_37);
+coraReturn(co, _3517723_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3517440_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3517440_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3516671_37);
+coraCall0(co, _3517440_37);
 return;
 }
 }
@@ -8834,13 +8866,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3516851_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3516851_37) {
-Obj _3516852_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3516853_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj y = _3516853_37;
+Obj _3517711_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == _3517711_37) {
+Obj _3517712_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj _3517713_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj _3517441_37 = _3517713_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), y);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), _3517441_37);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index ef021e6..671ce25 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -54,11 +54,14 @@
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
 	_ globals ['quote x] => (begin (add-symbol-to-list x globals) ['%const x])
-	env globals x => (if (elem? x env) x
-			     (begin
-			      (add-symbol-to-list x globals)
-			      ['%global x])) where (symbol? x)
-	env globals ['lambda args body] => ['lambda args (parse (append args env) globals body)]
+	;; env maps the source name of a local variable to its name in the output
+	env globals x => (let find (assq x env)
+			      (if (cons? find)
+				  (cdr find)
+				  (begin
+				   (add-symbol-to-list x globals)
+				   ['%global x]))) where (symbol? x)
+	env globals ['lambda args body] => ['lambda args (parse (append (map (lambda (x) (cons x x)) args) env) globals body)]
 	;; macro rewrite to avoid code explosion during tailify-pass
 	env globals ['if ['if . exp1] . exp2] => (let f (gensym)
 						      v (gensym)
@@ -66,7 +69,9 @@
 							     [f ['if . exp1]]]))
 	env globals ['if . args] => ['if . (map (parse env globals) args)]
 	env globals ['do x y] => ['do (parse env globals x) (parse env globals y)]
-	env globals ['let a b c] => ['let a (parse env globals b) (parse (cons a env) globals c)]
+	;; every let gets a name of its own, they may end up in the same C block
+	env globals ['let a b c] => (let a1 (gensym)
+					 ['let a1 (parse env globals b) (parse (cons (cons a a1) env) globals c)])
 	;; macro rewrite to avoid code explosion during tailify-pass
 	env globals [['lambda . exp1] ['if . exp2]] => (let f (gensym)
 							    (parse env globals ['let f ['lambda . exp1]
-- 
2.43.0


From 5fb8ac639e24047f59bc77801813387d7505ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 18/90] fix: keep C keywords, backslashes and non-ASCII names
 out of the generated C

A local named like a C keyword or like a variable of the generated code, a
name with bytes above 127, and a backslash in a string or symbol all gave C
code which did not compile or meant something else.
---
 init.c             | 3728 ++++++++++----------
 lib/toc.c          | 8247 ++++++++++++++++++++++----------------------
 lib/toc.cora       |    2 +-
 lib/toc/internal.c |   16 +-
 4 files changed, 6005 insertions(+), 5988 deletions(-)

diff --git a/init.c b/init.c
index e68d42d..7445f76 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513140_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj _3513143_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj _3513146_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj _3513149_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj _3513152_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj _3513156_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj _3513161_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj _3513165_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3513173_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3513175_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3513180_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3513146_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3513149_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3513152_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3513155_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3513158_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3513162_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3513167_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3513171_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3513179_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3513181_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3513186_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj _3513660_37= co->res;
-Obj _3513666_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3513678_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj _3513679_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3513680_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513679_37);
-Obj _3513681_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513680_37);
-Obj _3513682_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3513683_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513682_37);
-Obj _3513684_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513683_37);
-Obj _3513685_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3513686_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513685_37);
-Obj _3513687_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513686_37);
-Obj _3513688_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3513689_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513688_37);
-Obj _3513690_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513689_37);
-Obj _3513691_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3513692_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513691_37);
-Obj _3513693_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513692_37);
-Obj _3513694_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3513695_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513694_37);
-Obj _3513696_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, _3513695_37);
-Obj _3513697_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3513698_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513697_37);
-Obj _3513699_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, _3513698_37);
-Obj _3513700_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3513701_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513700_37);
-Obj _3513702_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, _3513701_37);
-Obj _3513703_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3513704_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513703_37);
-Obj _3513705_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, _3513704_37);
-Obj _3513706_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3513707_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513706_37);
-Obj _3513708_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513707_37);
-Obj _3513709_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3513710_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513709_37);
-Obj _3513711_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, _3513710_37);
-Obj _3513712_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3513713_37 = makeCons(co->gc, MAKE_NUMBER(2), _3513712_37);
-Obj _3513714_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3513713_37);
-Obj _3513715_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3513716_37 = makeCons(co->gc, MAKE_NUMBER(0), _3513715_37);
-Obj _3513717_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, _3513716_37);
-Obj _3513718_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3513719_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513718_37);
-Obj _3513720_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, _3513719_37);
-Obj _3513721_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3513722_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513721_37);
-Obj _3513723_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, _3513722_37);
-Obj _3513724_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3513725_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513724_37);
-Obj _3513726_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, _3513725_37);
-Obj _3513727_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3513728_37 = makeCons(co->gc, MAKE_NUMBER(1), _3513727_37);
-Obj _3513729_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, _3513728_37);
-Obj _3513730_37 = makeCons(co->gc, _3513729_37, Nil);
-Obj _3513731_37 = makeCons(co->gc, _3513726_37, _3513730_37);
-Obj _3513732_37 = makeCons(co->gc, _3513723_37, _3513731_37);
-Obj _3513733_37 = makeCons(co->gc, _3513720_37, _3513732_37);
-Obj _3513734_37 = makeCons(co->gc, _3513717_37, _3513733_37);
-Obj _3513735_37 = makeCons(co->gc, _3513714_37, _3513734_37);
-Obj _3513736_37 = makeCons(co->gc, _3513711_37, _3513735_37);
-Obj _3513737_37 = makeCons(co->gc, _3513708_37, _3513736_37);
-Obj _3513738_37 = makeCons(co->gc, _3513705_37, _3513737_37);
-Obj _3513739_37 = makeCons(co->gc, _3513702_37, _3513738_37);
-Obj _3513740_37 = makeCons(co->gc, _3513699_37, _3513739_37);
-Obj _3513741_37 = makeCons(co->gc, _3513696_37, _3513740_37);
-Obj _3513742_37 = makeCons(co->gc, _3513693_37, _3513741_37);
-Obj _3513743_37 = makeCons(co->gc, _3513690_37, _3513742_37);
-Obj _3513744_37 = makeCons(co->gc, _3513687_37, _3513743_37);
-Obj _3513745_37 = makeCons(co->gc, _3513684_37, _3513744_37);
-Obj _3513746_37 = makeCons(co->gc, _3513681_37, _3513745_37);
-Obj _3513747_37 = primSet(co, getBinding(co, packageID, 69).name, _3513746_37);
-Obj _3513762_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj _3513766_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj _3513944_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj _3513945_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj _3513946_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, _3513945_37);
-Obj _3513947_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, _3513946_37);
-Obj _3513948_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, _3513947_37);
-Obj _3513949_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, _3513948_37);
-Obj _3513950_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, _3513949_37);
-Obj _3513951_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, _3513950_37);
-Obj _3513952_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, _3513951_37);
-Obj _3513953_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, _3513952_37);
-Obj _3513954_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, _3513953_37);
-Obj _3513955_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513954_37);
-Obj _3513956_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, _3513955_37);
-Obj _3513957_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, _3513956_37);
-Obj _3513958_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, _3513957_37);
-Obj _3513959_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, _3513958_37);
-Obj _3513960_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, _3513959_37);
-Obj _3513961_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, _3513960_37);
-Obj _3513962_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, _3513961_37);
-Obj _3513963_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, _3513962_37);
-Obj _3513964_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, _3513963_37);
-Obj _3513965_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, _3513964_37);
-Obj _3513966_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, _3513965_37);
-Obj _3513967_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, _3513966_37);
-Obj _3513968_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3513967_37);
-Obj _3513969_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3513968_37);
-Obj _3513970_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3513969_37);
-Obj _3513971_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, _3513970_37);
-Obj _3513972_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, _3513971_37);
-Obj _3513973_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3513972_37);
-Obj _3513974_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, _3513973_37);
-Obj _3513975_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, _3513974_37);
-Obj _3513976_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, _3513975_37);
-Obj _3513977_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, _3513976_37);
-Obj _3513978_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, _3513977_37);
-Obj _3513979_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, _3513978_37);
-Obj _3513980_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, _3513979_37);
-Obj _3513981_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, _3513980_37);
-Obj _3513982_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, _3513981_37);
-Obj _3513983_37 = primSet(co, getBinding(co, packageID, 53).name, _3513982_37);
-Obj _3513984_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj _3513985_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj _3513986_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj _3513987_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj _3513988_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj _3513989_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj _3513990_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj _3513991_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj _3513992_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj _3513993_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj _3513994_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj _3513995_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj _3513996_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj _3513997_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj _3513998_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj _3513999_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj _3514000_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj _3514001_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj _3514002_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj _3514003_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj _3514004_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj _3514005_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj _3514006_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj _3514007_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj _3514008_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj _3514009_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj _3514010_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj _3514011_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj _3514012_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj _3514013_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj _3514014_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj _3514015_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj _3514016_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj _3514017_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj _3514018_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj _3514019_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj _3514020_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj _3514021_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj _3514022_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, _3514022_37);
+Obj v__3513666_37= co->res;
+Obj v__3513672_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v__3513684_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v__3513685_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3513686_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513685_37);
+Obj v__3513687_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513686_37);
+Obj v__3513688_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3513689_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513688_37);
+Obj v__3513690_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513689_37);
+Obj v__3513691_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3513692_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513691_37);
+Obj v__3513693_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513692_37);
+Obj v__3513694_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3513695_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513694_37);
+Obj v__3513696_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513695_37);
+Obj v__3513697_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3513698_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513697_37);
+Obj v__3513699_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513698_37);
+Obj v__3513700_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3513701_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513700_37);
+Obj v__3513702_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513701_37);
+Obj v__3513703_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3513704_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513703_37);
+Obj v__3513705_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513704_37);
+Obj v__3513706_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3513707_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513706_37);
+Obj v__3513708_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513707_37);
+Obj v__3513709_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3513710_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513709_37);
+Obj v__3513711_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513710_37);
+Obj v__3513712_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3513713_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513712_37);
+Obj v__3513714_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513713_37);
+Obj v__3513715_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3513716_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513715_37);
+Obj v__3513717_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513716_37);
+Obj v__3513718_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3513719_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513718_37);
+Obj v__3513720_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513719_37);
+Obj v__3513721_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3513722_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513721_37);
+Obj v__3513723_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513722_37);
+Obj v__3513724_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3513725_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513724_37);
+Obj v__3513726_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513725_37);
+Obj v__3513727_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3513728_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513727_37);
+Obj v__3513729_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513728_37);
+Obj v__3513730_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3513731_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513730_37);
+Obj v__3513732_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513731_37);
+Obj v__3513733_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3513734_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513733_37);
+Obj v__3513735_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513734_37);
+Obj v__3513736_37 = makeCons(co->gc, v__3513735_37, Nil);
+Obj v__3513737_37 = makeCons(co->gc, v__3513732_37, v__3513736_37);
+Obj v__3513738_37 = makeCons(co->gc, v__3513729_37, v__3513737_37);
+Obj v__3513739_37 = makeCons(co->gc, v__3513726_37, v__3513738_37);
+Obj v__3513740_37 = makeCons(co->gc, v__3513723_37, v__3513739_37);
+Obj v__3513741_37 = makeCons(co->gc, v__3513720_37, v__3513740_37);
+Obj v__3513742_37 = makeCons(co->gc, v__3513717_37, v__3513741_37);
+Obj v__3513743_37 = makeCons(co->gc, v__3513714_37, v__3513742_37);
+Obj v__3513744_37 = makeCons(co->gc, v__3513711_37, v__3513743_37);
+Obj v__3513745_37 = makeCons(co->gc, v__3513708_37, v__3513744_37);
+Obj v__3513746_37 = makeCons(co->gc, v__3513705_37, v__3513745_37);
+Obj v__3513747_37 = makeCons(co->gc, v__3513702_37, v__3513746_37);
+Obj v__3513748_37 = makeCons(co->gc, v__3513699_37, v__3513747_37);
+Obj v__3513749_37 = makeCons(co->gc, v__3513696_37, v__3513748_37);
+Obj v__3513750_37 = makeCons(co->gc, v__3513693_37, v__3513749_37);
+Obj v__3513751_37 = makeCons(co->gc, v__3513690_37, v__3513750_37);
+Obj v__3513752_37 = makeCons(co->gc, v__3513687_37, v__3513751_37);
+Obj v__3513753_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513752_37);
+Obj v__3513768_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v__3513772_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v__3513950_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v__3513951_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3513952_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3513951_37);
+Obj v__3513953_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3513952_37);
+Obj v__3513954_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3513953_37);
+Obj v__3513955_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3513954_37);
+Obj v__3513956_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3513955_37);
+Obj v__3513957_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3513956_37);
+Obj v__3513958_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3513957_37);
+Obj v__3513959_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3513958_37);
+Obj v__3513960_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3513959_37);
+Obj v__3513961_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513960_37);
+Obj v__3513962_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3513961_37);
+Obj v__3513963_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3513962_37);
+Obj v__3513964_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3513963_37);
+Obj v__3513965_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3513964_37);
+Obj v__3513966_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3513965_37);
+Obj v__3513967_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3513966_37);
+Obj v__3513968_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3513967_37);
+Obj v__3513969_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3513968_37);
+Obj v__3513970_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3513969_37);
+Obj v__3513971_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3513970_37);
+Obj v__3513972_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3513971_37);
+Obj v__3513973_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3513972_37);
+Obj v__3513974_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3513973_37);
+Obj v__3513975_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3513974_37);
+Obj v__3513976_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3513975_37);
+Obj v__3513977_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3513976_37);
+Obj v__3513978_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3513977_37);
+Obj v__3513979_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3513978_37);
+Obj v__3513980_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3513979_37);
+Obj v__3513981_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3513980_37);
+Obj v__3513982_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3513981_37);
+Obj v__3513983_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3513982_37);
+Obj v__3513984_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3513983_37);
+Obj v__3513985_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3513984_37);
+Obj v__3513986_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3513985_37);
+Obj v__3513987_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3513986_37);
+Obj v__3513988_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3513987_37);
+Obj v__3513989_37 = primSet(co, getBinding(co, packageID, 53).name, v__3513988_37);
+Obj v__3513990_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3513991_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3513992_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3513993_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3513994_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3513995_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3513996_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v__3513997_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v__3513998_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v__3513999_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v__3514000_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3514001_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3514002_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3514003_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3514004_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3514005_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3514006_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3514007_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3514008_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3514009_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3514010_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3514011_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3514012_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3514013_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3514014_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3514015_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3514016_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3514017_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3514018_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3514019_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3514020_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3514021_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v__3514022_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514023_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v__3514024_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3514025_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3514026_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3514027_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3514028_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3514028_37);
 return;
 }
 case 2:
 {
-Obj _3513610_37= co->res;
-Obj _3513639_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj _3513640_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3513616_37= co->res;
+Obj v__3513645_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v__3513646_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3513593_37= co->res;
-Obj _3513607_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v__3513599_37= co->res;
+Obj v__3513613_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj _3513571_37= co->res;
-Obj _3513591_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v__3513577_37= co->res;
+Obj v__3513597_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj _3513540_37= co->res;
-Obj _3513541_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj _3513542_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj _3513545_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj _3513569_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3513546_37= co->res;
+Obj v__3513547_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v__3513548_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v__3513551_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3513575_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj _3513432_37= co->res;
-Obj _3513484_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj _3513485_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj _3513490_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj _3513494_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj _3513495_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj _3513503_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj _3513504_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj _3513510_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3513521_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj _3513527_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v__3513438_37= co->res;
+Obj v__3513490_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v__3513491_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3513496_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v__3513500_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v__3513501_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v__3513509_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v__3513510_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v__3513516_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3513527_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v__3513533_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj _3513327_37= co->res;
-Obj _3513349_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj _3513382_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj _3513395_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj _3513417_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj _3513431_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3513333_37= co->res;
+Obj v__3513355_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3513388_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3513401_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3513423_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3513437_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj _3513312_37= co->res;
-Obj _3513315_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3513325_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3513318_37= co->res;
+Obj v__3513321_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3513331_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj _3513298_37= co->res;
-Obj _3513310_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3513304_37= co->res;
+Obj v__3513316_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj _3513284_37= co->res;
-Obj _3513296_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3513290_37= co->res;
+Obj v__3513302_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj _3513270_37= co->res;
+Obj v__3513276_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj _3513248_37= co->res;
-Obj _3513253_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj _3513256_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj _3513268_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3513254_37= co->res;
+Obj v__3513259_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3513262_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3513274_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj _3513238_37= co->res;
+Obj v__3513244_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj _3513236_37= co->res;
+Obj v__3513242_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj _3513181_37= co->res;
-Obj _3513182_37 = primSet(co, getBinding(co, packageID, 149).name, _3513181_37);
-Obj _3513188_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj _3513189_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj _3513190_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj _3513191_37 = primGenSym(co);
-Obj _3513192_37 = primSet(co, getBinding(co, packageID, 145).name, _3513191_37);
-Obj _3513196_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj _3513205_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj _3513206_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj _3513223_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj _3513224_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj _3513235_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3513187_37= co->res;
+Obj v__3513188_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513187_37);
+Obj v__3513194_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3513195_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3513196_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v__3513197_37 = primGenSym(co);
+Obj v__3513198_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513197_37);
+Obj v__3513202_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3513211_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3513212_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3513229_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3513230_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v__3513241_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513023_37 = R[1];
-Obj _3513024_37 = R[2];
-Obj _3513025_37 = R[3];
-Obj _3513026_37 = R[4];
-Obj _3513112_37 = makeNative(co->gc, 2, clofun93, 1, 4, _3513023_37, _3513024_37, _3513025_37, _3513026_37);
-R[1] = _3513026_37;
-R[2] = _3513112_37;
+Obj v__3513029_37 = R[1];
+Obj v__3513030_37 = R[2];
+Obj v__3513031_37 = R[3];
+Obj v__3513032_37 = R[4];
+Obj v__3513118_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513029_37, v__3513030_37, v__3513031_37, v__3513032_37);
+R[1] = v__3513032_37;
+R[2] = v__3513118_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), _3513026_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513032_37);
 return;
 }
 case 1:
 {
-Obj _3513943_37= co->res;
-Obj _3513112_37 = R[1];
-if (True == _3513943_37) {
+Obj v__3513949_37= co->res;
+Obj v__3513118_37 = R[1];
+if (True == v__3513949_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513112_37, True);
+coraCall1(co, v__3513118_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513112_37, False);
+coraCall1(co, v__3513118_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513942_37= co->res;
-Obj _3513026_37 = R[1];
-Obj _3513112_37 = R[2];
-if (True == _3513942_37) {
+Obj v__3513948_37= co->res;
+Obj v__3513032_37 = R[1];
+Obj v__3513118_37 = R[2];
+if (True == v__3513948_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513112_37, True);
+coraCall1(co, v__3513118_37, True);
 return;
 } else {
-R[1] = _3513112_37;
+R[1] = v__3513118_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513026_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513032_37);
 return;
 }
 }
 case 3:
 {
-Obj _3513940_37= co->res;
-Obj _3513026_37 = R[1];
-Obj _3513112_37 = R[2];
-if (True == _3513940_37) {
+Obj v__3513946_37= co->res;
+Obj v__3513032_37 = R[1];
+Obj v__3513118_37 = R[2];
+if (True == v__3513946_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513112_37, True);
+coraCall1(co, v__3513118_37, True);
 return;
 } else {
-Obj _3513941_37 = primIsString(_3513026_37);
-if (True == _3513941_37) {
+Obj v__3513947_37 = primIsString(v__3513032_37);
+if (True == v__3513947_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513112_37, True);
+coraCall1(co, v__3513118_37, True);
 return;
 } else {
-R[1] = _3513026_37;
-R[2] = _3513112_37;
+R[1] = v__3513032_37;
+R[2] = v__3513118_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), _3513026_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513032_37);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513111_37 = R[1];
-if (True == _3513111_37) {
+Obj v__3513117_37 = R[1];
+if (True == v__3513117_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj _3513113_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513928_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3513928_37) {
-Obj _3513929_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3513930_37 = PRIM_EQ(getBinding(co, packageID, 139).name, _3513929_37);
-if (True == _3513930_37) {
-Obj _3513931_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513932_37 = PRIM_ISCONS(_3513931_37);
-if (True == _3513932_37) {
-Obj _3513933_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513934_37 = PRIM_CAR(_3513933_37);
-Obj _3513138_37 = _3513934_37;
-Obj _3513935_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3513936_37 = PRIM_CDR(_3513935_37);
-Obj _3513937_37 = PRIM_EQ(Nil, _3513936_37);
-if (True == _3513937_37) {
-Obj _3513938_37 = makeCons(co->gc, _3513138_37, Nil);
-Obj _3513939_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513938_37);
-coraReturn(co, _3513939_37);
+Obj v__3513119_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513934_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3513934_37) {
+Obj v__3513935_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3513936_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3513935_37);
+if (True == v__3513936_37) {
+Obj v__3513937_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3513938_37 = PRIM_ISCONS(v__3513937_37);
+if (True == v__3513938_37) {
+Obj v__3513939_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3513940_37 = PRIM_CAR(v__3513939_37);
+Obj v__3513144_37 = v__3513940_37;
+Obj v__3513941_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3513942_37 = PRIM_CDR(v__3513941_37);
+Obj v__3513943_37 = PRIM_EQ(Nil, v__3513942_37);
+if (True == v__3513943_37) {
+Obj v__3513944_37 = makeCons(co->gc, v__3513144_37, Nil);
+Obj v__3513945_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513944_37);
+coraReturn(co, v__3513945_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513113_37);
+coraCall0(co, v__3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513113_37);
+coraCall0(co, v__3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513113_37);
+coraCall0(co, v__3513119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513113_37);
+coraCall0(co, v__3513119_37);
 return;
 }
 }
@@ -721,73 +721,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513767_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3513767_37) {
+Obj v__3513773_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3513773_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3513114_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513906_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513906_37) {
-Obj _3513907_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513908_37 = PRIM_EQ(getBinding(co, packageID, 140).name, _3513907_37);
-if (True == _3513908_37) {
-Obj _3513909_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513910_37 = PRIM_ISCONS(_3513909_37);
-if (True == _3513910_37) {
-Obj _3513911_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513912_37 = PRIM_CAR(_3513911_37);
-Obj _3513136_37 = _3513912_37;
-Obj _3513913_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513914_37 = PRIM_CDR(_3513913_37);
-Obj _3513915_37 = PRIM_ISCONS(_3513914_37);
-if (True == _3513915_37) {
-Obj _3513916_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513917_37 = PRIM_CDR(_3513916_37);
-Obj _3513918_37 = PRIM_CAR(_3513917_37);
-Obj _3513137_37 = _3513918_37;
-Obj _3513919_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513920_37 = PRIM_CDR(_3513919_37);
-Obj _3513921_37 = PRIM_CDR(_3513920_37);
-Obj _3513922_37 = PRIM_EQ(Nil, _3513921_37);
-if (True == _3513922_37) {
-R[1] = _3513137_37;
-R[2] = _3513136_37;
+Obj v__3513120_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513912_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513912_37) {
+Obj v__3513913_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513914_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3513913_37);
+if (True == v__3513914_37) {
+Obj v__3513915_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513916_37 = PRIM_ISCONS(v__3513915_37);
+if (True == v__3513916_37) {
+Obj v__3513917_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513918_37 = PRIM_CAR(v__3513917_37);
+Obj v__3513142_37 = v__3513918_37;
+Obj v__3513919_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513920_37 = PRIM_CDR(v__3513919_37);
+Obj v__3513921_37 = PRIM_ISCONS(v__3513920_37);
+if (True == v__3513921_37) {
+Obj v__3513922_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513923_37 = PRIM_CDR(v__3513922_37);
+Obj v__3513924_37 = PRIM_CAR(v__3513923_37);
+Obj v__3513143_37 = v__3513924_37;
+Obj v__3513925_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513926_37 = PRIM_CDR(v__3513925_37);
+Obj v__3513927_37 = PRIM_CDR(v__3513926_37);
+Obj v__3513928_37 = PRIM_EQ(Nil, v__3513927_37);
+if (True == v__3513928_37) {
+R[1] = v__3513143_37;
+R[2] = v__3513142_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513136_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513142_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513114_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513114_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513114_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513114_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513114_37);
+coraCall0(co, v__3513120_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513769_37= co->res;
-if (True == _3513769_37) {
+Obj v__3513775_37= co->res;
+if (True == v__3513775_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj _3513768_37= co->res;
-if (True == _3513768_37) {
+Obj v__3513774_37= co->res;
+if (True == v__3513774_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj _3513924_37= co->res;
-Obj _3513136_37 = R[1];
-Obj _3513925_37 = makeCons(co->gc, _3513924_37, Nil);
-Obj _3513926_37 = makeCons(co->gc, _3513136_37, _3513925_37);
-Obj _3513927_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513926_37);
-coraReturn(co, _3513927_37);
+Obj v__3513930_37= co->res;
+Obj v__3513142_37 = R[1];
+Obj v__3513931_37 = makeCons(co->gc, v__3513930_37, Nil);
+Obj v__3513932_37 = makeCons(co->gc, v__3513142_37, v__3513931_37);
+Obj v__3513933_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513932_37);
+coraReturn(co, v__3513933_37);
 return;
 }
 case 4:
 {
-Obj _3513923_37= co->res;
-Obj _3513137_37 = R[1];
-Obj _3513136_37 = R[2];
-R[1] = _3513136_37;
+Obj v__3513929_37= co->res;
+Obj v__3513143_37 = R[1];
+Obj v__3513142_37 = R[2];
+R[1] = v__3513142_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513923_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513137_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513929_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513143_37);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513115_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513862_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513862_37) {
-Obj _3513863_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513864_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3513863_37);
-if (True == _3513864_37) {
-Obj _3513865_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513866_37 = PRIM_ISCONS(_3513865_37);
-if (True == _3513866_37) {
-Obj _3513867_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513868_37 = PRIM_CAR(_3513867_37);
-Obj _3513869_37 = PRIM_ISCONS(_3513868_37);
-if (True == _3513869_37) {
-Obj _3513870_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513871_37 = PRIM_CAR(_3513870_37);
-Obj _3513872_37 = PRIM_CAR(_3513871_37);
-Obj _3513873_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513872_37);
-if (True == _3513873_37) {
-Obj _3513874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513875_37 = PRIM_CAR(_3513874_37);
-Obj _3513876_37 = PRIM_CDR(_3513875_37);
-Obj _3513877_37 = PRIM_ISCONS(_3513876_37);
-if (True == _3513877_37) {
-Obj _3513878_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513879_37 = PRIM_CAR(_3513878_37);
-Obj _3513880_37 = PRIM_CDR(_3513879_37);
-Obj _3513881_37 = PRIM_CAR(_3513880_37);
-Obj _3513134_37 = _3513881_37;
-Obj _3513882_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513883_37 = PRIM_CAR(_3513882_37);
-Obj _3513884_37 = PRIM_CDR(_3513883_37);
-Obj _3513885_37 = PRIM_CDR(_3513884_37);
-Obj _3513886_37 = PRIM_EQ(Nil, _3513885_37);
-if (True == _3513886_37) {
-Obj _3513887_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513888_37 = PRIM_CDR(_3513887_37);
-Obj _3513889_37 = PRIM_ISCONS(_3513888_37);
-if (True == _3513889_37) {
-Obj _3513890_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513891_37 = PRIM_CDR(_3513890_37);
-Obj _3513892_37 = PRIM_CAR(_3513891_37);
-Obj _3513135_37 = _3513892_37;
-Obj _3513893_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513894_37 = PRIM_CDR(_3513893_37);
-Obj _3513895_37 = PRIM_CDR(_3513894_37);
-Obj _3513896_37 = PRIM_EQ(Nil, _3513895_37);
-if (True == _3513896_37) {
-Obj _3513897_37 = primIsString(_3513134_37);
-if (True == _3513897_37) {
-Obj _3513898_37 = makeCons(co->gc, _3513134_37, Nil);
-Obj _3513899_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513898_37);
-R[1] = _3513134_37;
-R[2] = _3513135_37;
+Obj v__3513121_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513868_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513868_37) {
+Obj v__3513869_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513870_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513869_37);
+if (True == v__3513870_37) {
+Obj v__3513871_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513872_37 = PRIM_ISCONS(v__3513871_37);
+if (True == v__3513872_37) {
+Obj v__3513873_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513874_37 = PRIM_CAR(v__3513873_37);
+Obj v__3513875_37 = PRIM_ISCONS(v__3513874_37);
+if (True == v__3513875_37) {
+Obj v__3513876_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513877_37 = PRIM_CAR(v__3513876_37);
+Obj v__3513878_37 = PRIM_CAR(v__3513877_37);
+Obj v__3513879_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513878_37);
+if (True == v__3513879_37) {
+Obj v__3513880_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513881_37 = PRIM_CAR(v__3513880_37);
+Obj v__3513882_37 = PRIM_CDR(v__3513881_37);
+Obj v__3513883_37 = PRIM_ISCONS(v__3513882_37);
+if (True == v__3513883_37) {
+Obj v__3513884_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513885_37 = PRIM_CAR(v__3513884_37);
+Obj v__3513886_37 = PRIM_CDR(v__3513885_37);
+Obj v__3513887_37 = PRIM_CAR(v__3513886_37);
+Obj v__3513140_37 = v__3513887_37;
+Obj v__3513888_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513889_37 = PRIM_CAR(v__3513888_37);
+Obj v__3513890_37 = PRIM_CDR(v__3513889_37);
+Obj v__3513891_37 = PRIM_CDR(v__3513890_37);
+Obj v__3513892_37 = PRIM_EQ(Nil, v__3513891_37);
+if (True == v__3513892_37) {
+Obj v__3513893_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513894_37 = PRIM_CDR(v__3513893_37);
+Obj v__3513895_37 = PRIM_ISCONS(v__3513894_37);
+if (True == v__3513895_37) {
+Obj v__3513896_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513897_37 = PRIM_CDR(v__3513896_37);
+Obj v__3513898_37 = PRIM_CAR(v__3513897_37);
+Obj v__3513141_37 = v__3513898_37;
+Obj v__3513899_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513900_37 = PRIM_CDR(v__3513899_37);
+Obj v__3513901_37 = PRIM_CDR(v__3513900_37);
+Obj v__3513902_37 = PRIM_EQ(Nil, v__3513901_37);
+if (True == v__3513902_37) {
+Obj v__3513903_37 = primIsString(v__3513140_37);
+if (True == v__3513903_37) {
+Obj v__3513904_37 = makeCons(co->gc, v__3513140_37, Nil);
+Obj v__3513905_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513904_37);
+R[1] = v__3513140_37;
+R[2] = v__3513141_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513899_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513905_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513115_37);
+coraCall0(co, v__3513121_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513902_37= co->res;
-Obj _3513900_37 = R[1];
-Obj _3513903_37 = makeCons(co->gc, _3513902_37, Nil);
-Obj _3513904_37 = makeCons(co->gc, _3513900_37, _3513903_37);
-Obj _3513905_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513904_37);
-coraReturn(co, _3513905_37);
+Obj v__3513908_37= co->res;
+Obj v__3513906_37 = R[1];
+Obj v__3513909_37 = makeCons(co->gc, v__3513908_37, Nil);
+Obj v__3513910_37 = makeCons(co->gc, v__3513906_37, v__3513909_37);
+Obj v__3513911_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513910_37);
+coraReturn(co, v__3513911_37);
 return;
 }
 case 2:
 {
-Obj _3513900_37= co->res;
-Obj _3513134_37 = R[1];
-Obj _3513135_37 = R[2];
-Obj _3513901_37 = makeCons(co->gc, _3513134_37, closureRef(R[0], 3));
-R[1] = _3513900_37;
+Obj v__3513906_37= co->res;
+Obj v__3513140_37 = R[1];
+Obj v__3513141_37 = R[2];
+Obj v__3513907_37 = makeCons(co->gc, v__3513140_37, closureRef(R[0], 3));
+R[1] = v__3513906_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), _3513901_37, _3513135_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513907_37, v__3513141_37);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513116_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3513854_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513854_37) {
-Obj _3513855_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513129_37 = _3513855_37;
-Obj _3513856_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513130_37 = _3513856_37;
-Obj _3513133_37 = makeNative(co->gc, 2, clofun89, 1, 6, _3513129_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513130_37, _3513116_37);
-Obj _3513860_37 = PRIM_EQ(_3513129_37, getBinding(co, packageID, 126).name);
-if (True == _3513860_37) {
+Obj v__3513122_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513860_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513860_37) {
+Obj v__3513861_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513135_37 = v__3513861_37;
+Obj v__3513862_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513136_37 = v__3513862_37;
+Obj v__3513139_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513135_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513136_37, v__3513122_37);
+Obj v__3513866_37 = PRIM_EQ(v__3513135_37, getBinding(co, packageID, 126).name);
+if (True == v__3513866_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513133_37, True);
+coraCall1(co, v__3513139_37, True);
 return;
 } else {
-Obj _3513861_37 = PRIM_EQ(_3513129_37, getBinding(co, packageID, 90).name);
-if (True == _3513861_37) {
+Obj v__3513867_37 = PRIM_EQ(v__3513135_37, getBinding(co, packageID, 90).name);
+if (True == v__3513867_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513133_37, True);
+coraCall1(co, v__3513139_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513133_37, False);
+coraCall1(co, v__3513139_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513116_37);
+coraCall0(co, v__3513122_37);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513132_37 = R[1];
-if (True == _3513132_37) {
+Obj v__3513138_37 = R[1];
+if (True == v__3513138_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj _3513858_37= co->res;
-Obj _3513859_37 = makeCons(co->gc, closureRef(R[0], 0), _3513858_37);
-coraReturn(co, _3513859_37);
+Obj v__3513864_37= co->res;
+Obj v__3513865_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513864_37);
+coraReturn(co, v__3513865_37);
 return;
 }
 case 2:
 {
-Obj _3513857_37= co->res;
+Obj v__3513863_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513857_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513863_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,100 +1040,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513117_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513821_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513821_37) {
-Obj _3513822_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513823_37 = PRIM_EQ(getBinding(co, packageID, 129).name, _3513822_37);
-if (True == _3513823_37) {
-Obj _3513824_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513825_37 = PRIM_ISCONS(_3513824_37);
-if (True == _3513825_37) {
-Obj _3513826_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513827_37 = PRIM_CAR(_3513826_37);
-Obj _3513126_37 = _3513827_37;
-Obj _3513828_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513829_37 = PRIM_CDR(_3513828_37);
-Obj _3513830_37 = PRIM_ISCONS(_3513829_37);
-if (True == _3513830_37) {
-Obj _3513831_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513832_37 = PRIM_CDR(_3513831_37);
-Obj _3513833_37 = PRIM_CAR(_3513832_37);
-Obj _3513127_37 = _3513833_37;
-Obj _3513834_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513835_37 = PRIM_CDR(_3513834_37);
-Obj _3513836_37 = PRIM_CDR(_3513835_37);
-Obj _3513837_37 = PRIM_ISCONS(_3513836_37);
-if (True == _3513837_37) {
-Obj _3513838_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513839_37 = PRIM_CDR(_3513838_37);
-Obj _3513840_37 = PRIM_CDR(_3513839_37);
-Obj _3513841_37 = PRIM_CAR(_3513840_37);
-Obj _3513128_37 = _3513841_37;
-Obj _3513842_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513843_37 = PRIM_CDR(_3513842_37);
-Obj _3513844_37 = PRIM_CDR(_3513843_37);
-Obj _3513845_37 = PRIM_CDR(_3513844_37);
-Obj _3513846_37 = PRIM_EQ(Nil, _3513845_37);
-if (True == _3513846_37) {
-R[1] = _3513128_37;
-R[2] = _3513126_37;
+Obj v__3513123_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513827_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513827_37) {
+Obj v__3513828_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513829_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513828_37);
+if (True == v__3513829_37) {
+Obj v__3513830_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513831_37 = PRIM_ISCONS(v__3513830_37);
+if (True == v__3513831_37) {
+Obj v__3513832_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513833_37 = PRIM_CAR(v__3513832_37);
+Obj v__3513132_37 = v__3513833_37;
+Obj v__3513834_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513835_37 = PRIM_CDR(v__3513834_37);
+Obj v__3513836_37 = PRIM_ISCONS(v__3513835_37);
+if (True == v__3513836_37) {
+Obj v__3513837_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513838_37 = PRIM_CDR(v__3513837_37);
+Obj v__3513839_37 = PRIM_CAR(v__3513838_37);
+Obj v__3513133_37 = v__3513839_37;
+Obj v__3513840_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513841_37 = PRIM_CDR(v__3513840_37);
+Obj v__3513842_37 = PRIM_CDR(v__3513841_37);
+Obj v__3513843_37 = PRIM_ISCONS(v__3513842_37);
+if (True == v__3513843_37) {
+Obj v__3513844_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513845_37 = PRIM_CDR(v__3513844_37);
+Obj v__3513846_37 = PRIM_CDR(v__3513845_37);
+Obj v__3513847_37 = PRIM_CAR(v__3513846_37);
+Obj v__3513134_37 = v__3513847_37;
+Obj v__3513848_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513849_37 = PRIM_CDR(v__3513848_37);
+Obj v__3513850_37 = PRIM_CDR(v__3513849_37);
+Obj v__3513851_37 = PRIM_CDR(v__3513850_37);
+Obj v__3513852_37 = PRIM_EQ(Nil, v__3513851_37);
+if (True == v__3513852_37) {
+R[1] = v__3513134_37;
+R[2] = v__3513132_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513127_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513133_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513117_37);
+coraCall0(co, v__3513123_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513117_37);
+coraCall0(co, v__3513123_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513117_37);
+coraCall0(co, v__3513123_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513117_37);
+coraCall0(co, v__3513123_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513117_37);
+coraCall0(co, v__3513123_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513117_37);
+coraCall0(co, v__3513123_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513849_37= co->res;
-Obj _3513847_37 = R[1];
-Obj _3513126_37 = R[2];
-Obj _3513850_37 = makeCons(co->gc, _3513849_37, Nil);
-Obj _3513851_37 = makeCons(co->gc, _3513847_37, _3513850_37);
-Obj _3513852_37 = makeCons(co->gc, _3513126_37, _3513851_37);
-Obj _3513853_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513852_37);
-coraReturn(co, _3513853_37);
+Obj v__3513855_37= co->res;
+Obj v__3513853_37 = R[1];
+Obj v__3513132_37 = R[2];
+Obj v__3513856_37 = makeCons(co->gc, v__3513855_37, Nil);
+Obj v__3513857_37 = makeCons(co->gc, v__3513853_37, v__3513856_37);
+Obj v__3513858_37 = makeCons(co->gc, v__3513132_37, v__3513857_37);
+Obj v__3513859_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513858_37);
+coraReturn(co, v__3513859_37);
 return;
 }
 case 2:
 {
-Obj _3513847_37= co->res;
-Obj _3513128_37 = R[1];
-Obj _3513126_37 = R[2];
-Obj _3513848_37 = makeCons(co->gc, _3513126_37, closureRef(R[0], 1));
-R[1] = _3513847_37;
-R[2] = _3513126_37;
+Obj v__3513853_37= co->res;
+Obj v__3513134_37 = R[1];
+Obj v__3513132_37 = R[2];
+Obj v__3513854_37 = makeCons(co->gc, v__3513132_37, closureRef(R[0], 1));
+R[1] = v__3513853_37;
+R[2] = v__3513132_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), _3513848_37, closureRef(R[0], 2), closureRef(R[0], 3), _3513128_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513854_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513134_37);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513118_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513795_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3513795_37) {
-Obj _3513796_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3513797_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3513796_37);
-if (True == _3513797_37) {
-Obj _3513798_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513799_37 = PRIM_ISCONS(_3513798_37);
-if (True == _3513799_37) {
-Obj _3513800_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513801_37 = PRIM_CAR(_3513800_37);
-Obj _3513123_37 = _3513801_37;
-Obj _3513802_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513803_37 = PRIM_CDR(_3513802_37);
-Obj _3513804_37 = PRIM_ISCONS(_3513803_37);
-if (True == _3513804_37) {
-Obj _3513805_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513806_37 = PRIM_CDR(_3513805_37);
-Obj _3513807_37 = PRIM_CAR(_3513806_37);
-Obj _3513124_37 = _3513807_37;
-Obj _3513808_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513809_37 = PRIM_CDR(_3513808_37);
-Obj _3513810_37 = PRIM_CDR(_3513809_37);
-Obj _3513811_37 = PRIM_ISCONS(_3513810_37);
-if (True == _3513811_37) {
-Obj _3513812_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513813_37 = PRIM_CDR(_3513812_37);
-Obj _3513814_37 = PRIM_CDR(_3513813_37);
-Obj _3513815_37 = PRIM_CAR(_3513814_37);
-Obj _3513125_37 = _3513815_37;
-Obj _3513816_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3513817_37 = PRIM_CDR(_3513816_37);
-Obj _3513818_37 = PRIM_CDR(_3513817_37);
-Obj _3513819_37 = PRIM_CDR(_3513818_37);
-Obj _3513820_37 = PRIM_EQ(Nil, _3513819_37);
-if (True == _3513820_37) {
+Obj v__3513124_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513801_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3513801_37) {
+Obj v__3513802_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3513803_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513802_37);
+if (True == v__3513803_37) {
+Obj v__3513804_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513805_37 = PRIM_ISCONS(v__3513804_37);
+if (True == v__3513805_37) {
+Obj v__3513806_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513807_37 = PRIM_CAR(v__3513806_37);
+Obj v__3513129_37 = v__3513807_37;
+Obj v__3513808_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513809_37 = PRIM_CDR(v__3513808_37);
+Obj v__3513810_37 = PRIM_ISCONS(v__3513809_37);
+if (True == v__3513810_37) {
+Obj v__3513811_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513812_37 = PRIM_CDR(v__3513811_37);
+Obj v__3513813_37 = PRIM_CAR(v__3513812_37);
+Obj v__3513130_37 = v__3513813_37;
+Obj v__3513814_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513815_37 = PRIM_CDR(v__3513814_37);
+Obj v__3513816_37 = PRIM_CDR(v__3513815_37);
+Obj v__3513817_37 = PRIM_ISCONS(v__3513816_37);
+if (True == v__3513817_37) {
+Obj v__3513818_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513819_37 = PRIM_CDR(v__3513818_37);
+Obj v__3513820_37 = PRIM_CDR(v__3513819_37);
+Obj v__3513821_37 = PRIM_CAR(v__3513820_37);
+Obj v__3513131_37 = v__3513821_37;
+Obj v__3513822_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513823_37 = PRIM_CDR(v__3513822_37);
+Obj v__3513824_37 = PRIM_CDR(v__3513823_37);
+Obj v__3513825_37 = PRIM_CDR(v__3513824_37);
+Obj v__3513826_37 = PRIM_EQ(Nil, v__3513825_37);
+if (True == v__3513826_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), _3513123_37, _3513124_37, _3513125_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513129_37, v__3513130_37, v__3513131_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513118_37);
+coraCall0(co, v__3513124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513118_37);
+coraCall0(co, v__3513124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513118_37);
+coraCall0(co, v__3513124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513118_37);
+coraCall0(co, v__3513124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513118_37);
+coraCall0(co, v__3513124_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513118_37);
+coraCall0(co, v__3513124_37);
 return;
 }
 }
@@ -1220,81 +1220,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513119_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj _3513771_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513771_37) {
-Obj _3513772_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513773_37 = PRIM_EQ(getBinding(co, packageID, 133).name, _3513772_37);
-if (True == _3513773_37) {
-Obj _3513774_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513775_37 = PRIM_ISCONS(_3513774_37);
-if (True == _3513775_37) {
-Obj _3513776_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513777_37 = PRIM_CAR(_3513776_37);
-Obj _3513120_37 = _3513777_37;
-Obj _3513778_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513779_37 = PRIM_CDR(_3513778_37);
-Obj _3513780_37 = PRIM_ISCONS(_3513779_37);
-if (True == _3513780_37) {
-Obj _3513781_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513782_37 = PRIM_CDR(_3513781_37);
-Obj _3513783_37 = PRIM_CAR(_3513782_37);
-Obj _3513121_37 = _3513783_37;
-Obj _3513784_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513785_37 = PRIM_CDR(_3513784_37);
-Obj _3513786_37 = PRIM_CDR(_3513785_37);
-Obj _3513787_37 = PRIM_EQ(Nil, _3513786_37);
-if (True == _3513787_37) {
-R[1] = _3513121_37;
+Obj v__3513125_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3513777_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513777_37) {
+Obj v__3513778_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513779_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513778_37);
+if (True == v__3513779_37) {
+Obj v__3513780_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513781_37 = PRIM_ISCONS(v__3513780_37);
+if (True == v__3513781_37) {
+Obj v__3513782_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513783_37 = PRIM_CAR(v__3513782_37);
+Obj v__3513126_37 = v__3513783_37;
+Obj v__3513784_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513785_37 = PRIM_CDR(v__3513784_37);
+Obj v__3513786_37 = PRIM_ISCONS(v__3513785_37);
+if (True == v__3513786_37) {
+Obj v__3513787_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513788_37 = PRIM_CDR(v__3513787_37);
+Obj v__3513789_37 = PRIM_CAR(v__3513788_37);
+Obj v__3513127_37 = v__3513789_37;
+Obj v__3513790_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513791_37 = PRIM_CDR(v__3513790_37);
+Obj v__3513792_37 = PRIM_CDR(v__3513791_37);
+Obj v__3513793_37 = PRIM_EQ(Nil, v__3513792_37);
+if (True == v__3513793_37) {
+R[1] = v__3513127_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3513120_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513126_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513119_37);
+coraCall0(co, v__3513125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513119_37);
+coraCall0(co, v__3513125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513119_37);
+coraCall0(co, v__3513125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513119_37);
+coraCall0(co, v__3513125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513119_37);
+coraCall0(co, v__3513125_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513791_37= co->res;
-Obj _3513790_37 = R[1];
-Obj _3513792_37 = makeCons(co->gc, _3513791_37, Nil);
-Obj _3513793_37 = makeCons(co->gc, _3513790_37, _3513792_37);
-Obj _3513794_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, _3513793_37);
-coraReturn(co, _3513794_37);
+Obj v__3513797_37= co->res;
+Obj v__3513796_37 = R[1];
+Obj v__3513798_37 = makeCons(co->gc, v__3513797_37, Nil);
+Obj v__3513799_37 = makeCons(co->gc, v__3513796_37, v__3513798_37);
+Obj v__3513800_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513799_37);
+coraReturn(co, v__3513800_37);
 return;
 }
 case 2:
 {
-Obj _3513788_37= co->res;
-Obj _3513121_37 = R[1];
-Obj _3513122_37 = _3513788_37;
-Obj _3513789_37 = makeCons(co->gc, _3513122_37, Nil);
-Obj _3513790_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513789_37);
-R[1] = _3513790_37;
+Obj v__3513794_37= co->res;
+Obj v__3513127_37 = R[1];
+Obj v__3513128_37 = v__3513794_37;
+Obj v__3513795_37 = makeCons(co->gc, v__3513128_37, Nil);
+Obj v__3513796_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513795_37);
+R[1] = v__3513796_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3513121_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513127_37);
 return;
 }
 }
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj _3513770_37= co->res;
+Obj v__3513776_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), _3513770_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513776_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1322,23 +1322,23 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), x, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj _3513764_37= co->res;
-Obj _3513765_37 = primNot(_3513764_37);
-coraReturn(co, _3513765_37);
+Obj v__3513770_37= co->res;
+Obj v__3513771_37 = primNot(v__3513770_37);
+coraReturn(co, v__3513771_37);
 return;
 }
 case 2:
 {
-Obj _3513763_37= co->res;
+Obj v__3513769_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513763_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513769_37);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513018_37 = R[1];
-Obj _3513019_37 = R[2];
-Obj _3513748_37 = PRIM_EQ(Nil, _3513019_37);
-if (True == _3513748_37) {
+Obj v__3513024_37 = R[1];
+Obj v__3513025_37 = R[2];
+Obj v__3513754_37 = PRIM_EQ(Nil, v__3513025_37);
+if (True == v__3513754_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3513106_37 = makeNative(co->gc, 1, clofun82, 0, 2, _3513019_37, _3513018_37);
-Obj _3513752_37 = PRIM_ISCONS(_3513019_37);
-if (True == _3513752_37) {
-Obj _3513753_37 = PRIM_CAR(_3513019_37);
-Obj _3513754_37 = PRIM_ISCONS(_3513753_37);
-if (True == _3513754_37) {
-Obj _3513755_37 = PRIM_CAR(_3513019_37);
-Obj _3513756_37 = PRIM_CAR(_3513755_37);
-Obj _3513108_37 = _3513756_37;
-Obj _3513757_37 = PRIM_CAR(_3513019_37);
-Obj _3513758_37 = PRIM_CDR(_3513757_37);
-Obj _3513109_37 = _3513758_37;
-Obj _3513759_37 = PRIM_CDR(_3513019_37);
-Obj _3513760_37 = PRIM_EQ(_3513018_37, _3513108_37);
-if (True == _3513760_37) {
-Obj _3513761_37 = makeCons(co->gc, _3513108_37, _3513109_37);
-coraReturn(co, _3513761_37);
+Obj v__3513112_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513025_37, v__3513024_37);
+Obj v__3513758_37 = PRIM_ISCONS(v__3513025_37);
+if (True == v__3513758_37) {
+Obj v__3513759_37 = PRIM_CAR(v__3513025_37);
+Obj v__3513760_37 = PRIM_ISCONS(v__3513759_37);
+if (True == v__3513760_37) {
+Obj v__3513761_37 = PRIM_CAR(v__3513025_37);
+Obj v__3513762_37 = PRIM_CAR(v__3513761_37);
+Obj v__3513114_37 = v__3513762_37;
+Obj v__3513763_37 = PRIM_CAR(v__3513025_37);
+Obj v__3513764_37 = PRIM_CDR(v__3513763_37);
+Obj v__3513115_37 = v__3513764_37;
+Obj v__3513765_37 = PRIM_CDR(v__3513025_37);
+Obj v__3513766_37 = PRIM_EQ(v__3513024_37, v__3513114_37);
+if (True == v__3513766_37) {
+Obj v__3513767_37 = makeCons(co->gc, v__3513114_37, v__3513115_37);
+coraReturn(co, v__3513767_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513106_37);
+coraCall0(co, v__3513112_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513106_37);
+coraCall0(co, v__3513112_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513106_37);
+coraCall0(co, v__3513112_37);
 return;
 }
 }
@@ -1397,13 +1397,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513749_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513749_37) {
-Obj _3513750_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513751_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513107_37 = _3513751_37;
+Obj v__3513755_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513755_37) {
+Obj v__3513756_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513757_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513113_37 = v__3513757_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), _3513107_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513113_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1418,27 +1418,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513013_37 = R[1];
-Obj _3513014_37 = R[2];
-Obj _3513015_37 = R[3];
-Obj _3513667_37 = PRIM_EQ(Nil, _3513015_37);
-if (True == _3513667_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), _3513013_37, _3513014_37);
-return;
-} else {
-Obj _3513668_37 = PRIM_ISCONS(_3513015_37);
-if (True == _3513668_37) {
-Obj _3513669_37 = PRIM_CAR(_3513015_37);
-Obj _3513103_37 = _3513669_37;
-Obj _3513670_37 = PRIM_CDR(_3513015_37);
-Obj _3513104_37 = _3513670_37;
-R[1] = _3513103_37;
-R[2] = _3513013_37;
-R[3] = _3513014_37;
-R[4] = _3513104_37;
+Obj v__3513019_37 = R[1];
+Obj v__3513020_37 = R[2];
+Obj v__3513021_37 = R[3];
+Obj v__3513673_37 = PRIM_EQ(Nil, v__3513021_37);
+if (True == v__3513673_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513019_37, v__3513020_37);
+return;
+} else {
+Obj v__3513674_37 = PRIM_ISCONS(v__3513021_37);
+if (True == v__3513674_37) {
+Obj v__3513675_37 = PRIM_CAR(v__3513021_37);
+Obj v__3513109_37 = v__3513675_37;
+Obj v__3513676_37 = PRIM_CDR(v__3513021_37);
+Obj v__3513110_37 = v__3513676_37;
+R[1] = v__3513109_37;
+R[2] = v__3513019_37;
+R[3] = v__3513020_37;
+R[4] = v__3513110_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), _3513103_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513109_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj _3513677_37= co->res;
+Obj v__3513683_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513677_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513683_37);
 return;
 }
 case 2:
 {
-Obj _3513676_37= co->res;
-Obj _3513103_37 = R[1];
+Obj v__3513682_37= co->res;
+Obj v__3513109_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), _3513103_37, _3513676_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513109_37, v__3513682_37);
 return;
 }
 case 3:
 {
-Obj _3513675_37= co->res;
-Obj _3513103_37 = R[1];
-R[1] = _3513103_37;
+Obj v__3513681_37= co->res;
+Obj v__3513109_37 = R[1];
+R[1] = v__3513109_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513675_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513681_37);
 return;
 }
 case 4:
 {
-Obj _3513674_37= co->res;
-Obj _3513103_37 = R[1];
-Obj _3513013_37 = R[2];
-Obj _3513014_37 = R[3];
-Obj _3513104_37 = R[4];
-if (True == _3513674_37) {
-R[1] = _3513103_37;
+Obj v__3513680_37= co->res;
+Obj v__3513109_37 = R[1];
+Obj v__3513019_37 = R[2];
+Obj v__3513020_37 = R[3];
+Obj v__3513110_37 = R[4];
+if (True == v__3513680_37) {
+R[1] = v__3513109_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), _3513013_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513019_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), _3513013_37, _3513014_37, _3513104_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513019_37, v__3513020_37, v__3513110_37);
 return;
 }
 }
 case 5:
 {
-Obj _3513673_37= co->res;
-Obj _3513103_37 = R[1];
-Obj _3513013_37 = R[2];
-Obj _3513014_37 = R[3];
-Obj _3513104_37 = R[4];
-Obj _3513105_37 = _3513673_37;
-R[1] = _3513103_37;
-R[2] = _3513013_37;
-R[3] = _3513014_37;
-R[4] = _3513104_37;
+Obj v__3513679_37= co->res;
+Obj v__3513109_37 = R[1];
+Obj v__3513019_37 = R[2];
+Obj v__3513020_37 = R[3];
+Obj v__3513110_37 = R[4];
+Obj v__3513111_37 = v__3513679_37;
+R[1] = v__3513109_37;
+R[2] = v__3513019_37;
+R[3] = v__3513020_37;
+R[4] = v__3513110_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), _3513013_37, _3513105_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513019_37, v__3513111_37);
 return;
 }
 case 6:
 {
-Obj _3513672_37= co->res;
-Obj _3513103_37 = R[1];
-Obj _3513013_37 = R[2];
-Obj _3513014_37 = R[3];
-Obj _3513104_37 = R[4];
-R[1] = _3513103_37;
-R[2] = _3513013_37;
-R[3] = _3513014_37;
-R[4] = _3513104_37;
+Obj v__3513678_37= co->res;
+Obj v__3513109_37 = R[1];
+Obj v__3513019_37 = R[2];
+Obj v__3513020_37 = R[3];
+Obj v__3513110_37 = R[4];
+R[1] = v__3513109_37;
+R[2] = v__3513019_37;
+R[3] = v__3513020_37;
+R[4] = v__3513110_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), _3513672_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513678_37, Nil);
 return;
 }
 case 7:
 {
-Obj _3513671_37= co->res;
-Obj _3513103_37 = R[1];
-Obj _3513013_37 = R[2];
-Obj _3513014_37 = R[3];
-Obj _3513104_37 = R[4];
-R[1] = _3513103_37;
-R[2] = _3513013_37;
-R[3] = _3513014_37;
-R[4] = _3513104_37;
+Obj v__3513677_37= co->res;
+Obj v__3513109_37 = R[1];
+Obj v__3513019_37 = R[2];
+Obj v__3513020_37 = R[3];
+Obj v__3513110_37 = R[4];
+R[1] = v__3513109_37;
+R[2] = v__3513019_37;
+R[3] = v__3513020_37;
+R[4] = v__3513110_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513671_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513677_37);
 return;
 }
 }
@@ -1542,56 +1542,56 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj var = R[1];
-Obj ns = R[2];
-Obj _3513661_37 = PRIM_EQ(ns, makeCString(co->gc, ""));
-if (True == _3513661_37) {
-coraReturn(co, var);
+Obj v_var = R[1];
+Obj v_ns = R[2];
+Obj v__3513667_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v__3513667_37) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = var;
-R[2] = ns;
+R[1] = v_var;
+R[2] = v_ns;
 saveCont(co, clofun80, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
 return;
 }
 }
 case 1:
 {
-Obj _3513665_37= co->res;
+Obj v__3513671_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), _3513665_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513671_37);
 return;
 }
 case 2:
 {
-Obj _3513664_37= co->res;
-Obj ns = R[1];
+Obj v__3513670_37= co->res;
+Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), ns, _3513664_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513670_37);
 return;
 }
 case 3:
 {
-Obj _3513663_37= co->res;
-Obj ns = R[1];
-R[1] = ns;
+Obj v__3513669_37= co->res;
+Obj v_ns = R[1];
+R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), _3513663_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513669_37);
 return;
 }
 case 4:
 {
-Obj _3513662_37= co->res;
-Obj var = R[1];
-Obj ns = R[2];
-if (True == _3513662_37) {
-coraReturn(co, var);
+Obj v__3513668_37= co->res;
+Obj v_var = R[1];
+Obj v_ns = R[2];
+if (True == v__3513668_37) {
+coraReturn(co, v_var);
 return;
 } else {
-R[1] = ns;
+R[1] = v_ns;
 saveCont(co, clofun80, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
 return;
 }
 }
@@ -1602,37 +1602,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sexp = R[1];
-R[1] = sexp;
+Obj v_sexp = R[1];
+R[1] = v_sexp;
 saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_sexp);
 return;
 }
 case 1:
 {
-Obj _3513643_37= co->res;
-Obj _3513102_37 = R[1];
+Obj v__3513649_37= co->res;
+Obj v__3513108_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3513643_37, makeNative(co->gc, 4, clofun78, 3, 1, _3513102_37));
+coraCall1(co, v__3513649_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513108_37));
 return;
 }
 case 2:
 {
-Obj _3513642_37= co->res;
-Obj _3513102_37 = R[1];
-R[1] = _3513102_37;
+Obj v__3513648_37= co->res;
+Obj v__3513108_37 = R[1];
+R[1] = v__3513108_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), _3513642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513648_37);
 return;
 }
 case 3:
 {
-Obj _3513641_37= co->res;
-Obj sexp = R[1];
-Obj _3513102_37 = _3513641_37;
-R[1] = _3513102_37;
+Obj v__3513647_37= co->res;
+Obj v_sexp = R[1];
+Obj v__3513108_37 = v__3513647_37;
+R[1] = v__3513108_37;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
 return;
 }
 }
@@ -1642,44 +1642,44 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj import = R[1];
-Obj export = R[2];
-Obj body = R[3];
-Obj _3513644_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), import);
-R[1] = export;
-R[2] = body;
-R[3] = _3513644_37;
+Obj v_import = R[1];
+Obj v_export = R[2];
+Obj v_body = R[3];
+Obj v__3513650_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+R[1] = v_export;
+R[2] = v_body;
+R[3] = v__3513650_37;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj _3513654_37= co->res;
-Obj _3513644_37 = R[1];
-Obj _3513655_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, _3513654_37);
-Obj _3513656_37 = makeCons(co->gc, _3513655_37, Nil);
-Obj _3513657_37 = makeCons(co->gc, _3513644_37, _3513656_37);
-Obj _3513658_37 = makeCons(co->gc, closureRef(R[0], 0), _3513657_37);
-Obj _3513659_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3513658_37);
-coraReturn(co, _3513659_37);
+Obj v__3513660_37= co->res;
+Obj v__3513650_37 = R[1];
+Obj v__3513661_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513660_37);
+Obj v__3513662_37 = makeCons(co->gc, v__3513661_37, Nil);
+Obj v__3513663_37 = makeCons(co->gc, v__3513650_37, v__3513662_37);
+Obj v__3513664_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513663_37);
+Obj v__3513665_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513664_37);
+coraReturn(co, v__3513665_37);
 return;
 }
 case 2:
 {
-Obj _3513647_37= co->res;
-Obj export = R[1];
-Obj body = R[2];
-Obj _3513644_37 = R[3];
-Obj _3513648_37 = makeCons(co->gc, export, Nil);
-Obj _3513649_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3513648_37);
-Obj _3513650_37 = makeCons(co->gc, _3513649_37, Nil);
-Obj _3513651_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3513650_37);
-Obj _3513652_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513651_37);
-Obj _3513653_37 = makeCons(co->gc, _3513652_37, body);
-R[1] = _3513644_37;
+Obj v__3513653_37= co->res;
+Obj v_export = R[1];
+Obj v_body = R[2];
+Obj v__3513650_37 = R[3];
+Obj v__3513654_37 = makeCons(co->gc, v_export, Nil);
+Obj v__3513655_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513654_37);
+Obj v__3513656_37 = makeCons(co->gc, v__3513655_37, Nil);
+Obj v__3513657_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513656_37);
+Obj v__3513658_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513657_37);
+Obj v__3513659_37 = makeCons(co->gc, v__3513658_37, v_body);
+R[1] = v__3513650_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513647_37, _3513653_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513653_37, v__3513659_37);
 return;
 }
 }
@@ -1689,10 +1689,10 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj imp = R[1];
-Obj _3513645_37 = makeCons(co->gc, imp, Nil);
-Obj _3513646_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, _3513645_37);
-coraReturn(co, _3513646_37);
+Obj v_imp = R[1];
+Obj v__3513651_37 = makeCons(co->gc, v_imp, Nil);
+Obj v__3513652_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513651_37);
+coraReturn(co, v__3513652_37);
 return;
 }
 }
@@ -1702,10 +1702,10 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj data = R[1];
-Obj k = R[2];
+Obj v_data = R[1];
+Obj v_k = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), data, Nil, Nil, k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_data, Nil, Nil, v_k);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513006_37 = R[1];
-Obj _3513007_37 = R[2];
-Obj _3513008_37 = R[3];
-Obj _3513009_37 = R[4];
-Obj _3513096_37 = makeNative(co->gc, 1, clofun74, 0, 4, _3513008_37, _3513006_37, _3513007_37, _3513009_37);
-Obj _3513621_37 = PRIM_ISCONS(_3513006_37);
-if (True == _3513621_37) {
-Obj _3513622_37 = PRIM_CAR(_3513006_37);
-Obj _3513623_37 = PRIM_ISCONS(_3513622_37);
-if (True == _3513623_37) {
-Obj _3513624_37 = PRIM_CAR(_3513006_37);
-Obj _3513625_37 = PRIM_CAR(_3513624_37);
-Obj _3513626_37 = PRIM_EQ(getBinding(co, packageID, 81).name, _3513625_37);
-if (True == _3513626_37) {
-Obj _3513627_37 = PRIM_CAR(_3513006_37);
-Obj _3513628_37 = PRIM_CDR(_3513627_37);
-Obj _3513629_37 = PRIM_ISCONS(_3513628_37);
-if (True == _3513629_37) {
-Obj _3513630_37 = PRIM_CAR(_3513006_37);
-Obj _3513631_37 = PRIM_CDR(_3513630_37);
-Obj _3513632_37 = PRIM_CAR(_3513631_37);
-Obj _3513100_37 = _3513632_37;
-Obj _3513633_37 = PRIM_CAR(_3513006_37);
-Obj _3513634_37 = PRIM_CDR(_3513633_37);
-Obj _3513635_37 = PRIM_CDR(_3513634_37);
-Obj _3513636_37 = PRIM_EQ(Nil, _3513635_37);
-if (True == _3513636_37) {
-Obj _3513637_37 = PRIM_CDR(_3513006_37);
-Obj _3513101_37 = _3513637_37;
-Obj _3513638_37 = makeCons(co->gc, _3513100_37, _3513007_37);
+Obj v__3513012_37 = R[1];
+Obj v__3513013_37 = R[2];
+Obj v__3513014_37 = R[3];
+Obj v__3513015_37 = R[4];
+Obj v__3513102_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513014_37, v__3513012_37, v__3513013_37, v__3513015_37);
+Obj v__3513627_37 = PRIM_ISCONS(v__3513012_37);
+if (True == v__3513627_37) {
+Obj v__3513628_37 = PRIM_CAR(v__3513012_37);
+Obj v__3513629_37 = PRIM_ISCONS(v__3513628_37);
+if (True == v__3513629_37) {
+Obj v__3513630_37 = PRIM_CAR(v__3513012_37);
+Obj v__3513631_37 = PRIM_CAR(v__3513630_37);
+Obj v__3513632_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513631_37);
+if (True == v__3513632_37) {
+Obj v__3513633_37 = PRIM_CAR(v__3513012_37);
+Obj v__3513634_37 = PRIM_CDR(v__3513633_37);
+Obj v__3513635_37 = PRIM_ISCONS(v__3513634_37);
+if (True == v__3513635_37) {
+Obj v__3513636_37 = PRIM_CAR(v__3513012_37);
+Obj v__3513637_37 = PRIM_CDR(v__3513636_37);
+Obj v__3513638_37 = PRIM_CAR(v__3513637_37);
+Obj v__3513106_37 = v__3513638_37;
+Obj v__3513639_37 = PRIM_CAR(v__3513012_37);
+Obj v__3513640_37 = PRIM_CDR(v__3513639_37);
+Obj v__3513641_37 = PRIM_CDR(v__3513640_37);
+Obj v__3513642_37 = PRIM_EQ(Nil, v__3513641_37);
+if (True == v__3513642_37) {
+Obj v__3513643_37 = PRIM_CDR(v__3513012_37);
+Obj v__3513107_37 = v__3513643_37;
+Obj v__3513644_37 = makeCons(co->gc, v__3513106_37, v__3513013_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), _3513101_37, _3513638_37, _3513008_37, _3513009_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513107_37, v__3513644_37, v__3513014_37, v__3513015_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513096_37);
+coraCall0(co, v__3513102_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513096_37);
+coraCall0(co, v__3513102_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513096_37);
+coraCall0(co, v__3513102_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513096_37);
+coraCall0(co, v__3513102_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513096_37);
+coraCall0(co, v__3513102_37);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513097_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3513612_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513612_37) {
-Obj _3513613_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513614_37 = PRIM_ISCONS(_3513613_37);
-if (True == _3513614_37) {
-Obj _3513615_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513616_37 = PRIM_CAR(_3513615_37);
-Obj _3513617_37 = PRIM_EQ(getBinding(co, packageID, 82).name, _3513616_37);
-if (True == _3513617_37) {
-Obj _3513618_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513619_37 = PRIM_CDR(_3513618_37);
-Obj _3513098_37 = _3513619_37;
-Obj _3513620_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3513099_37 = _3513620_37;
+Obj v__3513103_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513618_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513618_37) {
+Obj v__3513619_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513620_37 = PRIM_ISCONS(v__3513619_37);
+if (True == v__3513620_37) {
+Obj v__3513621_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513622_37 = PRIM_CAR(v__3513621_37);
+Obj v__3513623_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513622_37);
+if (True == v__3513623_37) {
+Obj v__3513624_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513625_37 = PRIM_CDR(v__3513624_37);
+Obj v__3513104_37 = v__3513625_37;
+Obj v__3513626_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513105_37 = v__3513626_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), _3513099_37, closureRef(R[0], 2), _3513098_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513105_37, closureRef(R[0], 2), v__3513104_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513097_37);
+coraCall0(co, v__3513103_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513097_37);
+coraCall0(co, v__3513103_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513097_37);
+coraCall0(co, v__3513103_37);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj _3513611_37= co->res;
+Obj v__3513617_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), _3513611_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3513617_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1840,27 +1840,27 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513609_37= co->res;
-Obj _3513608_37 = R[1];
+Obj v__3513615_37= co->res;
+Obj v__3513614_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), _3513608_37, _3513609_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513614_37, v__3513615_37);
 return;
 }
 case 2:
 {
-Obj _3513608_37= co->res;
-Obj exp = R[1];
-R[1] = _3513608_37;
+Obj v__3513614_37= co->res;
+Obj v_exp = R[1];
+R[1] = v__3513614_37;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -1870,67 +1870,67 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj arglist = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v_fn = R[1];
+Obj v_arglist = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_arglist);
 return;
 }
 case 1:
 {
-Obj _3513597_37= co->res;
-Obj _3513596_37 = R[1];
-Obj fn = R[2];
-Obj _3513598_37 = makeCons(co->gc, _3513597_37, Nil);
-Obj _3513599_37 = makeCons(co->gc, _3513596_37, _3513598_37);
-Obj _3513600_37 = makeCons(co->gc, fn, _3513599_37);
-coraReturn(co, _3513600_37);
+Obj v__3513603_37= co->res;
+Obj v__3513602_37 = R[1];
+Obj v_fn = R[2];
+Obj v__3513604_37 = makeCons(co->gc, v__3513603_37, Nil);
+Obj v__3513605_37 = makeCons(co->gc, v__3513602_37, v__3513604_37);
+Obj v__3513606_37 = makeCons(co->gc, v_fn, v__3513605_37);
+coraReturn(co, v__3513606_37);
 return;
 }
 case 2:
 {
-Obj _3513603_37= co->res;
-Obj _3513601_37 = R[1];
-Obj fn = R[2];
-Obj _3513604_37 = makeCons(co->gc, _3513603_37, Nil);
-Obj _3513605_37 = makeCons(co->gc, _3513601_37, _3513604_37);
-Obj _3513606_37 = makeCons(co->gc, fn, _3513605_37);
-coraReturn(co, _3513606_37);
+Obj v__3513609_37= co->res;
+Obj v__3513607_37 = R[1];
+Obj v_fn = R[2];
+Obj v__3513610_37 = makeCons(co->gc, v__3513609_37, Nil);
+Obj v__3513611_37 = makeCons(co->gc, v__3513607_37, v__3513610_37);
+Obj v__3513612_37 = makeCons(co->gc, v_fn, v__3513611_37);
+coraReturn(co, v__3513612_37);
 return;
 }
 case 3:
 {
-Obj _3513595_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-if (True == _3513595_37) {
-Obj _3513596_37 = PRIM_CAR(arglist);
-R[1] = _3513596_37;
-R[2] = fn;
+Obj v__3513601_37= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+if (True == v__3513601_37) {
+Obj v__3513602_37 = PRIM_CAR(v_arglist);
+R[1] = v__3513602_37;
+R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj _3513601_37 = PRIM_CAR(arglist);
-Obj _3513602_37 = PRIM_CDR(arglist);
-R[1] = _3513601_37;
-R[2] = fn;
+Obj v__3513607_37 = PRIM_CAR(v_arglist);
+Obj v__3513608_37 = PRIM_CDR(v_arglist);
+R[1] = v__3513607_37;
+R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), fn, _3513602_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513608_37);
 return;
 }
 }
 case 4:
 {
-Obj _3513594_37= co->res;
-Obj arglist = R[1];
-Obj fn = R[2];
-R[1] = arglist;
-R[2] = fn;
+Obj v__3513600_37= co->res;
+Obj v_arglist = R[1];
+Obj v_fn = R[2];
+R[1] = v_arglist;
+R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513594_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513600_37);
 return;
 }
 }
@@ -1940,16 +1940,16 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513592_37= co->res;
+Obj v__3513598_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), _3513592_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513598_37);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513001_37 = R[1];
-Obj _3513572_37 = primIsSymbol(_3513001_37);
-if (True == _3513572_37) {
-Obj _3513573_37 = makeCons(co->gc, _3513001_37, Nil);
-Obj _3513574_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513573_37);
-coraReturn(co, _3513574_37);
+Obj v__3513007_37 = R[1];
+Obj v__3513578_37 = primIsSymbol(v__3513007_37);
+if (True == v__3513578_37) {
+Obj v__3513579_37 = makeCons(co->gc, v__3513007_37, Nil);
+Obj v__3513580_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513579_37);
+coraReturn(co, v__3513580_37);
 return;
 } else {
-Obj _3513092_37 = makeNative(co->gc, 1, clofun68, 0, 1, _3513001_37);
-Obj _3513581_37 = PRIM_ISCONS(_3513001_37);
-if (True == _3513581_37) {
-Obj _3513582_37 = PRIM_CAR(_3513001_37);
-Obj _3513583_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3513582_37);
-if (True == _3513583_37) {
-Obj _3513584_37 = PRIM_CDR(_3513001_37);
-Obj _3513585_37 = PRIM_ISCONS(_3513584_37);
-if (True == _3513585_37) {
-Obj _3513586_37 = PRIM_CDR(_3513001_37);
-Obj _3513587_37 = PRIM_CAR(_3513586_37);
-Obj _3513095_37 = _3513587_37;
-Obj _3513588_37 = PRIM_CDR(_3513001_37);
-Obj _3513589_37 = PRIM_CDR(_3513588_37);
-Obj _3513590_37 = PRIM_EQ(Nil, _3513589_37);
-if (True == _3513590_37) {
-coraReturn(co, _3513095_37);
+Obj v__3513098_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513007_37);
+Obj v__3513587_37 = PRIM_ISCONS(v__3513007_37);
+if (True == v__3513587_37) {
+Obj v__3513588_37 = PRIM_CAR(v__3513007_37);
+Obj v__3513589_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513588_37);
+if (True == v__3513589_37) {
+Obj v__3513590_37 = PRIM_CDR(v__3513007_37);
+Obj v__3513591_37 = PRIM_ISCONS(v__3513590_37);
+if (True == v__3513591_37) {
+Obj v__3513592_37 = PRIM_CDR(v__3513007_37);
+Obj v__3513593_37 = PRIM_CAR(v__3513592_37);
+Obj v__3513101_37 = v__3513593_37;
+Obj v__3513594_37 = PRIM_CDR(v__3513007_37);
+Obj v__3513595_37 = PRIM_CDR(v__3513594_37);
+Obj v__3513596_37 = PRIM_EQ(Nil, v__3513595_37);
+if (True == v__3513596_37) {
+coraReturn(co, v__3513101_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513092_37);
+coraCall0(co, v__3513098_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513092_37);
+coraCall0(co, v__3513098_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513092_37);
+coraCall0(co, v__3513098_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513092_37);
+coraCall0(co, v__3513098_37);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513575_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513575_37) {
-Obj _3513576_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513093_37 = _3513576_37;
-Obj _3513577_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513094_37 = _3513577_37;
-Obj _3513578_37 = makeCons(co->gc, _3513093_37, _3513094_37);
+Obj v__3513581_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513581_37) {
+Obj v__3513582_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513099_37 = v__3513582_37;
+Obj v__3513583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513100_37 = v__3513583_37;
+Obj v__3513584_37 = makeCons(co->gc, v__3513099_37, v__3513100_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), _3513578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513584_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj _3513579_37= co->res;
-Obj _3513580_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513579_37);
-coraReturn(co, _3513580_37);
+Obj v__3513585_37= co->res;
+Obj v__3513586_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513585_37);
+coraReturn(co, v__3513586_37);
 return;
 }
 }
@@ -2043,10 +2043,10 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513570_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513576_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3513570_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513576_37);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3512997_37 = R[1];
-Obj _3513085_37 = makeNative(co->gc, 1, clofun65, 0, 1, _3512997_37);
-Obj _3513565_37 = PRIM_ISCONS(_3512997_37);
-if (True == _3513565_37) {
-Obj _3513566_37 = PRIM_CAR(_3512997_37);
-Obj _3513091_37 = _3513566_37;
-Obj _3513567_37 = PRIM_CDR(_3512997_37);
-Obj _3513568_37 = PRIM_EQ(Nil, _3513567_37);
-if (True == _3513568_37) {
-coraReturn(co, _3513091_37);
+Obj v__3513003_37 = R[1];
+Obj v__3513091_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513003_37);
+Obj v__3513571_37 = PRIM_ISCONS(v__3513003_37);
+if (True == v__3513571_37) {
+Obj v__3513572_37 = PRIM_CAR(v__3513003_37);
+Obj v__3513097_37 = v__3513572_37;
+Obj v__3513573_37 = PRIM_CDR(v__3513003_37);
+Obj v__3513574_37 = PRIM_EQ(Nil, v__3513573_37);
+if (True == v__3513574_37) {
+coraReturn(co, v__3513097_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513085_37);
+coraCall0(co, v__3513091_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513085_37);
+coraCall0(co, v__3513091_37);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513086_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj _3513553_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513553_37) {
-Obj _3513554_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513089_37 = _3513554_37;
-Obj _3513555_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513556_37 = PRIM_ISCONS(_3513555_37);
-if (True == _3513556_37) {
-Obj _3513557_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513558_37 = PRIM_CAR(_3513557_37);
-Obj _3513090_37 = _3513558_37;
-Obj _3513559_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513560_37 = PRIM_CDR(_3513559_37);
-Obj _3513561_37 = PRIM_EQ(Nil, _3513560_37);
-if (True == _3513561_37) {
-Obj _3513562_37 = makeCons(co->gc, _3513090_37, Nil);
-Obj _3513563_37 = makeCons(co->gc, _3513089_37, _3513562_37);
-Obj _3513564_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513563_37);
-coraReturn(co, _3513564_37);
+Obj v__3513092_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v__3513559_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513559_37) {
+Obj v__3513560_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513095_37 = v__3513560_37;
+Obj v__3513561_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513562_37 = PRIM_ISCONS(v__3513561_37);
+if (True == v__3513562_37) {
+Obj v__3513563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513564_37 = PRIM_CAR(v__3513563_37);
+Obj v__3513096_37 = v__3513564_37;
+Obj v__3513565_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513566_37 = PRIM_CDR(v__3513565_37);
+Obj v__3513567_37 = PRIM_EQ(Nil, v__3513566_37);
+if (True == v__3513567_37) {
+Obj v__3513568_37 = makeCons(co->gc, v__3513096_37, Nil);
+Obj v__3513569_37 = makeCons(co->gc, v__3513095_37, v__3513568_37);
+Obj v__3513570_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513569_37);
+coraReturn(co, v__3513570_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513086_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513086_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513086_37);
+coraCall0(co, v__3513092_37);
 return;
 }
 }
@@ -2128,15 +2128,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513546_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513546_37) {
-Obj _3513547_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513087_37 = _3513547_37;
-Obj _3513548_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513088_37 = _3513548_37;
-R[1] = _3513087_37;
+Obj v__3513552_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513552_37) {
+Obj v__3513553_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513093_37 = v__3513553_37;
+Obj v__3513554_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513094_37 = v__3513554_37;
+R[1] = v__3513093_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), _3513088_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513094_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj _3513549_37= co->res;
-Obj _3513087_37 = R[1];
-Obj _3513550_37 = makeCons(co->gc, _3513549_37, Nil);
-Obj _3513551_37 = makeCons(co->gc, _3513087_37, _3513550_37);
-Obj _3513552_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3513551_37);
-coraReturn(co, _3513552_37);
+Obj v__3513555_37= co->res;
+Obj v__3513093_37 = R[1];
+Obj v__3513556_37 = makeCons(co->gc, v__3513555_37, Nil);
+Obj v__3513557_37 = makeCons(co->gc, v__3513093_37, v__3513556_37);
+Obj v__3513558_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513557_37);
+coraReturn(co, v__3513558_37);
 return;
 }
 }
@@ -2161,23 +2161,23 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513544_37= co->res;
+Obj v__3513550_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3513544_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513550_37);
 return;
 }
 case 2:
 {
-Obj _3513543_37= co->res;
+Obj v__3513549_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), _3513543_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513549_37);
 return;
 }
 }
@@ -2187,8 +2187,8 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-coraReturn(co, x);
+Obj v_x = R[1];
+coraReturn(co, v_x);
 return;
 }
 }
@@ -2198,9 +2198,9 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v_exp);
 return;
 }
 }
@@ -2210,69 +2210,69 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513532_37= co->res;
-Obj _3513082_37 = R[1];
-Obj _3513084_37 = R[2];
-Obj _3513533_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513084_37);
-Obj _3513534_37 = makeCons(co->gc, _3513533_37, _3513082_37);
-Obj _3513535_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3513534_37);
-Obj _3513536_37 = makeCons(co->gc, _3513535_37, Nil);
-Obj _3513537_37 = makeCons(co->gc, _3513084_37, _3513536_37);
-Obj _3513538_37 = makeCons(co->gc, _3513532_37, _3513537_37);
-Obj _3513539_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, _3513538_37);
-coraReturn(co, _3513539_37);
+Obj v__3513538_37= co->res;
+Obj v__3513088_37 = R[1];
+Obj v__3513090_37 = R[2];
+Obj v__3513539_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513090_37);
+Obj v__3513540_37 = makeCons(co->gc, v__3513539_37, v__3513088_37);
+Obj v__3513541_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513540_37);
+Obj v__3513542_37 = makeCons(co->gc, v__3513541_37, Nil);
+Obj v__3513543_37 = makeCons(co->gc, v__3513090_37, v__3513542_37);
+Obj v__3513544_37 = makeCons(co->gc, v__3513538_37, v__3513543_37);
+Obj v__3513545_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513544_37);
+coraReturn(co, v__3513545_37);
 return;
 }
 case 2:
 {
-Obj _3513531_37= co->res;
-Obj exp = R[1];
-Obj _3513082_37 = R[2];
-Obj _3513084_37 = _3513531_37;
-R[1] = _3513082_37;
-R[2] = _3513084_37;
+Obj v__3513537_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513088_37 = R[2];
+Obj v__3513090_37 = v__3513537_37;
+R[1] = v__3513088_37;
+R[2] = v__3513090_37;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513530_37= co->res;
-Obj exp = R[1];
-Obj _3513082_37 = R[2];
-Obj _3513083_37 = _3513530_37;
-R[1] = exp;
-R[2] = _3513082_37;
+Obj v__3513536_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513088_37 = R[2];
+Obj v__3513089_37 = v__3513536_37;
+R[1] = v_exp;
+R[2] = v__3513088_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3513083_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513089_37);
 return;
 }
 case 4:
 {
-Obj _3513529_37= co->res;
-Obj exp = R[1];
-Obj _3513082_37 = _3513529_37;
-R[1] = exp;
-R[2] = _3513082_37;
+Obj v__3513535_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513088_37 = v__3513535_37;
+R[1] = v_exp;
+R[2] = v__3513088_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), _3513082_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513088_37);
 return;
 }
 case 5:
 {
-Obj _3513528_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v__3513534_37= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3513528_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513534_37);
 return;
 }
 }
@@ -2282,26 +2282,26 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj _3513522_37 = PRIM_EQ(n, MAKE_NUMBER(0));
-if (True == _3513522_37) {
+Obj v_n = R[1];
+Obj v__3513528_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v__3513528_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3513523_37 = primGenSym(co);
-Obj _3513524_37 = PRIM_SUB(n, MAKE_NUMBER(1));
-R[1] = _3513523_37;
+Obj v__3513529_37 = primGenSym(co);
+Obj v__3513530_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v__3513529_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), _3513524_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513530_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513525_37= co->res;
-Obj _3513523_37 = R[1];
-Obj _3513526_37 = makeCons(co->gc, _3513523_37, _3513525_37);
-coraReturn(co, _3513526_37);
+Obj v__3513531_37= co->res;
+Obj v__3513529_37 = R[1];
+Obj v__3513532_37 = makeCons(co->gc, v__3513529_37, v__3513531_37);
+coraReturn(co, v__3513532_37);
 return;
 }
 }
@@ -2311,52 +2311,52 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
+Obj v_rules = R[1];
 saveCont(co, clofun58, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
 return;
 }
 case 1:
 {
-Obj _3513519_37= co->res;
-Obj _3513081_37 = R[1];
-Obj _3513520_37 = primNot(_3513519_37);
-if (True == _3513520_37) {
+Obj v__3513525_37= co->res;
+Obj v__3513087_37 = R[1];
+Obj v__3513526_37 = primNot(v__3513525_37);
+if (True == v__3513526_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, _3513081_37);
+coraReturn(co, v__3513087_37);
 return;
 }
 }
 case 2:
 {
-Obj _3513518_37= co->res;
-Obj _3513081_37 = R[1];
-R[1] = _3513081_37;
+Obj v__3513524_37= co->res;
+Obj v__3513087_37 = R[1];
+R[1] = v__3513087_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513518_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513524_37);
 return;
 }
 case 3:
 {
-Obj _3513513_37= co->res;
-Obj _3513080_37 = _3513513_37;
-Obj _3513514_37 = PRIM_CAR(_3513080_37);
-Obj _3513081_37 = _3513514_37;
-Obj _3513517_37 = PRIM_CDR(_3513080_37);
-R[1] = _3513081_37;
+Obj v__3513519_37= co->res;
+Obj v__3513086_37 = v__3513519_37;
+Obj v__3513520_37 = PRIM_CAR(v__3513086_37);
+Obj v__3513087_37 = v__3513520_37;
+Obj v__3513523_37 = PRIM_CDR(v__3513086_37);
+R[1] = v__3513087_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, _3513081_37), _3513517_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513087_37), v__3513523_37);
 return;
 }
 case 4:
 {
-Obj _3513511_37= co->res;
-Obj _3513079_37 = _3513511_37;
+Obj v__3513517_37= co->res;
+Obj v__3513085_37 = v__3513517_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), _3513079_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513085_37);
 return;
 }
 }
@@ -2366,10 +2366,10 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513515_37 = PRIM_EQ(closureRef(R[0], 0), x);
-Obj _3513516_37 = primNot(_3513515_37);
-coraReturn(co, _3513516_37);
+Obj v_x = R[1];
+Obj v__3513521_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v__3513522_37 = primNot(v__3513521_37);
+coraReturn(co, v__3513522_37);
 return;
 }
 }
@@ -2379,10 +2379,10 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513512_37 = PRIM_CDR(x);
+Obj v_x = R[1];
+Obj v__3513518_37 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3513512_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513518_37);
 return;
 }
 }
@@ -2392,27 +2392,27 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l1 = R[1];
-Obj l2 = R[2];
-Obj _3513505_37 = PRIM_EQ(l1, Nil);
-if (True == _3513505_37) {
-coraReturn(co, l2);
+Obj v_l1 = R[1];
+Obj v_l2 = R[2];
+Obj v__3513511_37 = PRIM_EQ(v_l1, Nil);
+if (True == v__3513511_37) {
+coraReturn(co, v_l2);
 return;
 } else {
-Obj _3513506_37 = PRIM_CAR(l1);
-Obj _3513507_37 = PRIM_CDR(l1);
-R[1] = _3513506_37;
+Obj v__3513512_37 = PRIM_CAR(v_l1);
+Obj v__3513513_37 = PRIM_CDR(v_l1);
+R[1] = v__3513512_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3513507_37, l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513513_37, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj _3513508_37= co->res;
-Obj _3513506_37 = R[1];
-Obj _3513509_37 = makeCons(co->gc, _3513506_37, _3513508_37);
-coraReturn(co, _3513509_37);
+Obj v__3513514_37= co->res;
+Obj v__3513512_37 = R[1];
+Obj v__3513515_37 = makeCons(co->gc, v__3513512_37, v__3513514_37);
+coraReturn(co, v__3513515_37);
 return;
 }
 }
@@ -2422,10 +2422,10 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj fn = R[1];
-Obj l = R[2];
+Obj v_fn = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, fn, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v_fn, v_l);
 return;
 }
 }
@@ -2435,41 +2435,41 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj fn = R[2];
-Obj l = R[3];
-Obj _3513496_37 = PRIM_ISCONS(l);
-if (True == _3513496_37) {
-Obj _3513497_37 = PRIM_CAR(l);
-R[1] = l;
-R[2] = res;
-R[3] = fn;
+Obj v_res = R[1];
+Obj v_fn = R[2];
+Obj v_l = R[3];
+Obj v__3513502_37 = PRIM_ISCONS(v_l);
+if (True == v__3513502_37) {
+Obj v__3513503_37 = PRIM_CAR(v_l);
+R[1] = v_l;
+R[2] = v_res;
+R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, fn, _3513497_37);
+coraCall1(co, v_fn, v__3513503_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3513498_37= co->res;
-Obj l = R[1];
-Obj res = R[2];
-Obj fn = R[3];
-if (True == _3513498_37) {
-Obj _3513499_37 = PRIM_CAR(l);
-Obj _3513500_37 = makeCons(co->gc, _3513499_37, res);
-Obj _3513501_37 = PRIM_CDR(l);
+Obj v__3513504_37= co->res;
+Obj v_l = R[1];
+Obj v_res = R[2];
+Obj v_fn = R[3];
+if (True == v__3513504_37) {
+Obj v__3513505_37 = PRIM_CAR(v_l);
+Obj v__3513506_37 = makeCons(co->gc, v__3513505_37, v_res);
+Obj v__3513507_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), _3513500_37, fn, _3513501_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513506_37, v_fn, v__3513507_37);
 return;
 } else {
-Obj _3513502_37 = PRIM_CDR(l);
+Obj v__3513508_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), res, fn, _3513502_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513508_37);
 return;
 }
 }
@@ -2480,9 +2480,9 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v_l);
 return;
 }
 }
@@ -2492,17 +2492,17 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj i = R[1];
-Obj l = R[2];
-Obj _3513491_37 = PRIM_EQ(l, Nil);
-if (True == _3513491_37) {
-coraReturn(co, i);
+Obj v_i = R[1];
+Obj v_l = R[2];
+Obj v__3513497_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513497_37) {
+coraReturn(co, v_i);
 return;
 } else {
-Obj _3513492_37 = PRIM_ADD(i, MAKE_NUMBER(1));
-Obj _3513493_37 = PRIM_CDR(l);
+Obj v__3513498_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v__3513499_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), _3513492_37, _3513493_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513498_37, v__3513499_37);
 return;
 }
 }
@@ -2513,37 +2513,37 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj rules = R[2];
-R[1] = res;
-R[2] = rules;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+R[1] = v_res;
+R[2] = v_rules;
 saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3513489_37= co->res;
-Obj _3513488_37 = R[1];
+Obj v__3513495_37= co->res;
+Obj v__3513494_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), _3513488_37, _3513489_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513494_37, v__3513495_37);
 return;
 }
 case 2:
 {
-Obj _3513486_37= co->res;
-Obj res = R[1];
-Obj rules = R[2];
-if (True == _3513486_37) {
+Obj v__3513492_37= co->res;
+Obj v_res = R[1];
+Obj v_rules = R[2];
+if (True == v__3513492_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj _3513487_37 = PRIM_CAR(rules);
-Obj _3513488_37 = makeCons(co->gc, _3513487_37, res);
-R[1] = _3513488_37;
+Obj v__3513493_37 = PRIM_CAR(v_rules);
+Obj v__3513494_37 = makeCons(co->gc, v__3513493_37, v_res);
+R[1] = v__3513494_37;
 saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
 }
 }
@@ -2554,9 +2554,9 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
+Obj v_input = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_input, Nil, Nil);
 return;
 }
 }
@@ -2566,106 +2566,106 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj input = R[1];
-Obj current = R[2];
-Obj result = R[3];
-Obj _3513433_37 = PRIM_EQ(Nil, input);
-if (True == _3513433_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), result);
-return;
-} else {
-Obj _3513068_37 = makeNative(co->gc, 3, clofun47, 0, 3, input, current, result);
-Obj _3513451_37 = PRIM_ISCONS(input);
-if (True == _3513451_37) {
-Obj _3513452_37 = PRIM_CAR(input);
-Obj _3513453_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3513452_37);
-if (True == _3513453_37) {
-Obj _3513454_37 = PRIM_CDR(input);
-Obj _3513455_37 = PRIM_ISCONS(_3513454_37);
-if (True == _3513455_37) {
-Obj _3513456_37 = PRIM_CDR(input);
-Obj _3513457_37 = PRIM_CAR(_3513456_37);
-Obj _3513075_37 = _3513457_37;
-Obj _3513458_37 = PRIM_CDR(input);
-Obj _3513459_37 = PRIM_CDR(_3513458_37);
-Obj _3513460_37 = PRIM_ISCONS(_3513459_37);
-if (True == _3513460_37) {
-Obj _3513461_37 = PRIM_CDR(input);
-Obj _3513462_37 = PRIM_CDR(_3513461_37);
-Obj _3513463_37 = PRIM_CAR(_3513462_37);
-Obj _3513464_37 = PRIM_EQ(getBinding(co, packageID, 110).name, _3513463_37);
-if (True == _3513464_37) {
-Obj _3513465_37 = PRIM_CDR(input);
-Obj _3513466_37 = PRIM_CDR(_3513465_37);
-Obj _3513467_37 = PRIM_CDR(_3513466_37);
-Obj _3513468_37 = PRIM_ISCONS(_3513467_37);
-if (True == _3513468_37) {
-Obj _3513469_37 = PRIM_CDR(input);
-Obj _3513470_37 = PRIM_CDR(_3513469_37);
-Obj _3513471_37 = PRIM_CDR(_3513470_37);
-Obj _3513472_37 = PRIM_CAR(_3513471_37);
-Obj _3513076_37 = _3513472_37;
-Obj _3513473_37 = PRIM_CDR(input);
-Obj _3513474_37 = PRIM_CDR(_3513473_37);
-Obj _3513475_37 = PRIM_CDR(_3513474_37);
-Obj _3513476_37 = PRIM_CDR(_3513475_37);
-Obj _3513077_37 = _3513476_37;
-R[1] = _3513075_37;
-R[2] = _3513076_37;
-R[3] = result;
-R[4] = _3513077_37;
+Obj v_input = R[1];
+Obj v_current = R[2];
+Obj v_result = R[3];
+Obj v__3513439_37 = PRIM_EQ(Nil, v_input);
+if (True == v__3513439_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
+return;
+} else {
+Obj v__3513074_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v__3513457_37 = PRIM_ISCONS(v_input);
+if (True == v__3513457_37) {
+Obj v__3513458_37 = PRIM_CAR(v_input);
+Obj v__3513459_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513458_37);
+if (True == v__3513459_37) {
+Obj v__3513460_37 = PRIM_CDR(v_input);
+Obj v__3513461_37 = PRIM_ISCONS(v__3513460_37);
+if (True == v__3513461_37) {
+Obj v__3513462_37 = PRIM_CDR(v_input);
+Obj v__3513463_37 = PRIM_CAR(v__3513462_37);
+Obj v__3513081_37 = v__3513463_37;
+Obj v__3513464_37 = PRIM_CDR(v_input);
+Obj v__3513465_37 = PRIM_CDR(v__3513464_37);
+Obj v__3513466_37 = PRIM_ISCONS(v__3513465_37);
+if (True == v__3513466_37) {
+Obj v__3513467_37 = PRIM_CDR(v_input);
+Obj v__3513468_37 = PRIM_CDR(v__3513467_37);
+Obj v__3513469_37 = PRIM_CAR(v__3513468_37);
+Obj v__3513470_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513469_37);
+if (True == v__3513470_37) {
+Obj v__3513471_37 = PRIM_CDR(v_input);
+Obj v__3513472_37 = PRIM_CDR(v__3513471_37);
+Obj v__3513473_37 = PRIM_CDR(v__3513472_37);
+Obj v__3513474_37 = PRIM_ISCONS(v__3513473_37);
+if (True == v__3513474_37) {
+Obj v__3513475_37 = PRIM_CDR(v_input);
+Obj v__3513476_37 = PRIM_CDR(v__3513475_37);
+Obj v__3513477_37 = PRIM_CDR(v__3513476_37);
+Obj v__3513478_37 = PRIM_CAR(v__3513477_37);
+Obj v__3513082_37 = v__3513478_37;
+Obj v__3513479_37 = PRIM_CDR(v_input);
+Obj v__3513480_37 = PRIM_CDR(v__3513479_37);
+Obj v__3513481_37 = PRIM_CDR(v__3513480_37);
+Obj v__3513482_37 = PRIM_CDR(v__3513481_37);
+Obj v__3513083_37 = v__3513482_37;
+R[1] = v__3513081_37;
+R[2] = v__3513082_37;
+R[3] = v_result;
+R[4] = v__3513083_37;
 saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513068_37);
+coraCall0(co, v__3513074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513068_37);
+coraCall0(co, v__3513074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513068_37);
+coraCall0(co, v__3513074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513068_37);
+coraCall0(co, v__3513074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513068_37);
+coraCall0(co, v__3513074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513068_37);
+coraCall0(co, v__3513074_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513477_37= co->res;
-Obj _3513075_37 = R[1];
-Obj _3513076_37 = R[2];
-Obj result = R[3];
-Obj _3513077_37 = R[4];
-Obj _3513478_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513477_37);
-Obj _3513078_37 = _3513478_37;
-Obj _3513479_37 = makeCons(co->gc, _3513075_37, Nil);
-Obj _3513480_37 = makeCons(co->gc, _3513076_37, _3513479_37);
-Obj _3513481_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3513480_37);
-Obj _3513482_37 = makeCons(co->gc, _3513078_37, result);
-Obj _3513483_37 = makeCons(co->gc, _3513481_37, _3513482_37);
+Obj v__3513483_37= co->res;
+Obj v__3513081_37 = R[1];
+Obj v__3513082_37 = R[2];
+Obj v_result = R[3];
+Obj v__3513083_37 = R[4];
+Obj v__3513484_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513483_37);
+Obj v__3513084_37 = v__3513484_37;
+Obj v__3513485_37 = makeCons(co->gc, v__3513081_37, Nil);
+Obj v__3513486_37 = makeCons(co->gc, v__3513082_37, v__3513485_37);
+Obj v__3513487_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513486_37);
+Obj v__3513488_37 = makeCons(co->gc, v__3513084_37, v_result);
+Obj v__3513489_37 = makeCons(co->gc, v__3513487_37, v__3513488_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), _3513077_37, Nil, _3513483_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513083_37, Nil, v__3513489_37);
 return;
 }
 }
@@ -2675,53 +2675,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513069_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3513438_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513438_37) {
-Obj _3513439_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513440_37 = PRIM_EQ(getBinding(co, packageID, 105).name, _3513439_37);
-if (True == _3513440_37) {
-Obj _3513441_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513442_37 = PRIM_ISCONS(_3513441_37);
-if (True == _3513442_37) {
-Obj _3513443_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513444_37 = PRIM_CAR(_3513443_37);
-Obj _3513072_37 = _3513444_37;
-Obj _3513445_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513446_37 = PRIM_CDR(_3513445_37);
-Obj _3513073_37 = _3513446_37;
-R[1] = _3513072_37;
-R[2] = _3513073_37;
+Obj v__3513075_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513444_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513444_37) {
+Obj v__3513445_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513446_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513445_37);
+if (True == v__3513446_37) {
+Obj v__3513447_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513448_37 = PRIM_ISCONS(v__3513447_37);
+if (True == v__3513448_37) {
+Obj v__3513449_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513450_37 = PRIM_CAR(v__3513449_37);
+Obj v__3513078_37 = v__3513450_37;
+Obj v__3513451_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513452_37 = PRIM_CDR(v__3513451_37);
+Obj v__3513079_37 = v__3513452_37;
+R[1] = v__3513078_37;
+R[2] = v__3513079_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513069_37);
+coraCall0(co, v__3513075_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513069_37);
+coraCall0(co, v__3513075_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3513069_37);
+coraCall0(co, v__3513075_37);
 return;
 }
 }
 case 1:
 {
-Obj _3513447_37= co->res;
-Obj _3513072_37 = R[1];
-Obj _3513073_37 = R[2];
-Obj _3513448_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, _3513447_37);
-Obj _3513074_37 = _3513448_37;
-Obj _3513449_37 = makeCons(co->gc, _3513074_37, closureRef(R[0], 2));
-Obj _3513450_37 = makeCons(co->gc, _3513072_37, _3513449_37);
+Obj v__3513453_37= co->res;
+Obj v__3513078_37 = R[1];
+Obj v__3513079_37 = R[2];
+Obj v__3513454_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513453_37);
+Obj v__3513080_37 = v__3513454_37;
+Obj v__3513455_37 = makeCons(co->gc, v__3513080_37, closureRef(R[0], 2));
+Obj v__3513456_37 = makeCons(co->gc, v__3513078_37, v__3513455_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), _3513073_37, Nil, _3513450_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513079_37, Nil, v__3513456_37);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513434_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3513434_37) {
-Obj _3513435_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3513070_37 = _3513435_37;
-Obj _3513436_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3513071_37 = _3513436_37;
-Obj _3513437_37 = makeCons(co->gc, _3513070_37, closureRef(R[0], 1));
+Obj v__3513440_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513440_37) {
+Obj v__3513441_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513076_37 = v__3513441_37;
+Obj v__3513442_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513077_37 = v__3513442_37;
+Obj v__3513443_37 = makeCons(co->gc, v__3513076_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), _3513071_37, _3513437_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513077_37, v__3513443_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2754,9 +2754,9 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_exp);
 return;
 }
 }
@@ -2766,55 +2766,55 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513420_37= co->res;
-Obj _3513062_37 = R[1];
-Obj _3513063_37 = _3513420_37;
-Obj _3513066_37 = makeNative(co->gc, 2, clofun43, 1, 2, _3513062_37, _3513063_37);
-Obj _3513427_37 = PRIM_ISCONS(_3513062_37);
-if (True == _3513427_37) {
-Obj _3513428_37 = PRIM_CAR(_3513062_37);
-Obj _3513429_37 = PRIM_EQ(getBinding(co, packageID, 152).name, _3513428_37);
-Obj _3513430_37 = primNot(_3513429_37);
-if (True == _3513430_37) {
+Obj v__3513426_37= co->res;
+Obj v__3513068_37 = R[1];
+Obj v__3513069_37 = v__3513426_37;
+Obj v__3513072_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513068_37, v__3513069_37);
+Obj v__3513433_37 = PRIM_ISCONS(v__3513068_37);
+if (True == v__3513433_37) {
+Obj v__3513434_37 = PRIM_CAR(v__3513068_37);
+Obj v__3513435_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513434_37);
+Obj v__3513436_37 = primNot(v__3513435_37);
+if (True == v__3513436_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513066_37, True);
+coraCall1(co, v__3513072_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513066_37, False);
+coraCall1(co, v__3513072_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513066_37, False);
+coraCall1(co, v__3513072_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513419_37= co->res;
-Obj exp = R[1];
-Obj _3513062_37 = _3513419_37;
-R[1] = _3513062_37;
+Obj v__3513425_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513068_37 = v__3513425_37;
+R[1] = v__3513068_37;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513418_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
+Obj v__3513424_37= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3513418_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513424_37);
 return;
 }
 }
@@ -2824,13 +2824,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513065_37 = R[1];
-if (True == _3513065_37) {
-Obj _3513421_37 = primGenSym(co);
-Obj _3513067_37 = _3513421_37;
-R[1] = _3513067_37;
+Obj v__3513071_37 = R[1];
+if (True == v__3513071_37) {
+Obj v__3513427_37 = primGenSym(co);
+Obj v__3513073_37 = v__3513427_37;
+R[1] = v__3513073_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), _3513067_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513073_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj _3513422_37= co->res;
-Obj _3513067_37 = R[1];
-Obj _3513423_37 = makeCons(co->gc, _3513422_37, Nil);
-Obj _3513424_37 = makeCons(co->gc, closureRef(R[0], 0), _3513423_37);
-Obj _3513425_37 = makeCons(co->gc, _3513067_37, _3513424_37);
-Obj _3513426_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513425_37);
-coraReturn(co, _3513426_37);
+Obj v__3513428_37= co->res;
+Obj v__3513073_37 = R[1];
+Obj v__3513429_37 = makeCons(co->gc, v__3513428_37, Nil);
+Obj v__3513430_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513429_37);
+Obj v__3513431_37 = makeCons(co->gc, v__3513073_37, v__3513430_37);
+Obj v__3513432_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513431_37);
+coraReturn(co, v__3513432_37);
 return;
 }
 }
@@ -2856,61 +2856,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj value = R[1];
-Obj rules = R[2];
-R[1] = value;
-R[2] = rules;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+R[1] = v_value;
+R[2] = v_rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
 return;
 }
 case 1:
 {
-Obj _3513416_37= co->res;
-Obj _3513056_37 = R[1];
-if (True == _3513416_37) {
+Obj v__3513422_37= co->res;
+Obj v__3513062_37 = R[1];
+if (True == v__3513422_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513056_37, True);
+coraCall1(co, v__3513062_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513056_37, False);
+coraCall1(co, v__3513062_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513414_37= co->res;
-Obj rules = R[1];
-Obj _3513056_37 = R[2];
-if (True == _3513414_37) {
-Obj _3513415_37 = PRIM_CDR(rules);
-R[1] = _3513056_37;
+Obj v__3513420_37= co->res;
+Obj v_rules = R[1];
+Obj v__3513062_37 = R[2];
+if (True == v__3513420_37) {
+Obj v__3513421_37 = PRIM_CDR(v_rules);
+R[1] = v__3513062_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3513415_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513421_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513056_37, False);
+coraCall1(co, v__3513062_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3513396_37= co->res;
-Obj value = R[1];
-Obj rules = R[2];
-if (True == _3513396_37) {
-Obj _3513397_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj _3513398_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513397_37);
-coraReturn(co, _3513398_37);
+Obj v__3513402_37= co->res;
+Obj v_value = R[1];
+Obj v_rules = R[2];
+if (True == v__3513402_37) {
+Obj v__3513403_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3513404_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513403_37);
+coraReturn(co, v__3513404_37);
 return;
 } else {
-Obj _3513056_37 = makeNative(co->gc, 3, clofun41, 1, 2, value, rules);
-R[1] = rules;
-R[2] = _3513056_37;
+Obj v__3513062_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+R[1] = v_rules;
+R[2] = v__3513062_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
 }
 }
@@ -2921,16 +2921,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513055_37 = R[1];
-if (True == _3513055_37) {
-Obj _3513399_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513057_37 = _3513399_37;
-Obj _3513400_37 = primGenSym(co);
-Obj _3513058_37 = _3513400_37;
-R[1] = _3513057_37;
-R[2] = _3513058_37;
+Obj v__3513061_37 = R[1];
+if (True == v__3513061_37) {
+Obj v__3513405_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513063_37 = v__3513405_37;
+Obj v__3513406_37 = primGenSym(co);
+Obj v__3513064_37 = v__3513406_37;
+R[1] = v__3513063_37;
+R[2] = v__3513064_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), _3513058_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513064_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2940,53 +2940,53 @@ return;
 }
 case 1:
 {
-Obj _3513406_37= co->res;
-Obj _3513060_37 = R[1];
-Obj _3513058_37 = R[2];
-Obj _3513061_37 = _3513406_37;
-Obj _3513407_37 = makeCons(co->gc, _3513061_37, Nil);
-Obj _3513408_37 = makeCons(co->gc, Nil, _3513407_37);
-Obj _3513409_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513408_37);
-Obj _3513410_37 = makeCons(co->gc, _3513060_37, Nil);
-Obj _3513411_37 = makeCons(co->gc, _3513409_37, _3513410_37);
-Obj _3513412_37 = makeCons(co->gc, _3513058_37, _3513411_37);
-Obj _3513413_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513412_37);
-coraReturn(co, _3513413_37);
+Obj v__3513412_37= co->res;
+Obj v__3513066_37 = R[1];
+Obj v__3513064_37 = R[2];
+Obj v__3513067_37 = v__3513412_37;
+Obj v__3513413_37 = makeCons(co->gc, v__3513067_37, Nil);
+Obj v__3513414_37 = makeCons(co->gc, Nil, v__3513413_37);
+Obj v__3513415_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513414_37);
+Obj v__3513416_37 = makeCons(co->gc, v__3513066_37, Nil);
+Obj v__3513417_37 = makeCons(co->gc, v__3513415_37, v__3513416_37);
+Obj v__3513418_37 = makeCons(co->gc, v__3513064_37, v__3513417_37);
+Obj v__3513419_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513418_37);
+coraReturn(co, v__3513419_37);
 return;
 }
 case 2:
 {
-Obj _3513403_37= co->res;
-Obj _3513058_37 = R[1];
-Obj _3513060_37 = _3513403_37;
-Obj _3513404_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3513405_37 = PRIM_CDR(_3513404_37);
-R[1] = _3513060_37;
-R[2] = _3513058_37;
+Obj v__3513409_37= co->res;
+Obj v__3513064_37 = R[1];
+Obj v__3513066_37 = v__3513409_37;
+Obj v__3513410_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513411_37 = PRIM_CDR(v__3513410_37);
+R[1] = v__3513066_37;
+R[2] = v__3513064_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), _3513405_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513411_37);
 return;
 }
 case 3:
 {
-Obj _3513402_37= co->res;
-Obj _3513059_37 = R[1];
-Obj _3513058_37 = R[2];
-R[1] = _3513058_37;
+Obj v__3513408_37= co->res;
+Obj v__3513065_37 = R[1];
+Obj v__3513064_37 = R[2];
+R[1] = v__3513064_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), _3513402_37, closureRef(R[0], 0), _3513059_37, _3513058_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513408_37, closureRef(R[0], 0), v__3513065_37, v__3513064_37);
 return;
 }
 case 4:
 {
-Obj _3513401_37= co->res;
-Obj _3513057_37 = R[1];
-Obj _3513058_37 = R[2];
-Obj _3513059_37 = _3513401_37;
-R[1] = _3513059_37;
-R[2] = _3513058_37;
+Obj v__3513407_37= co->res;
+Obj v__3513063_37 = R[1];
+Obj v__3513064_37 = R[2];
+Obj v__3513065_37 = v__3513407_37;
+R[1] = v__3513065_37;
+R[2] = v__3513064_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), _3513057_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513063_37);
 return;
 }
 }
@@ -2996,38 +2996,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rules = R[1];
-Obj cc = R[2];
-Obj _3513383_37 = PRIM_CDR(rules);
-Obj _3513384_37 = PRIM_CAR(_3513383_37);
-Obj _3513050_37 = _3513384_37;
-Obj _3513053_37 = makeNative(co->gc, 2, clofun39, 1, 2, cc, _3513050_37);
-R[1] = _3513050_37;
-R[2] = _3513053_37;
+Obj v_rules = R[1];
+Obj v_cc = R[2];
+Obj v__3513389_37 = PRIM_CDR(v_rules);
+Obj v__3513390_37 = PRIM_CAR(v__3513389_37);
+Obj v__3513056_37 = v__3513390_37;
+Obj v__3513059_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513056_37);
+R[1] = v__3513056_37;
+R[2] = v__3513059_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), _3513050_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513056_37);
 return;
 }
 case 1:
 {
-Obj _3513392_37= co->res;
-Obj _3513050_37 = R[1];
-Obj _3513053_37 = R[2];
-if (True == _3513392_37) {
-Obj _3513393_37 = PRIM_CAR(_3513050_37);
-Obj _3513394_37 = PRIM_EQ(_3513393_37, getBinding(co, packageID, 110).name);
-if (True == _3513394_37) {
+Obj v__3513398_37= co->res;
+Obj v__3513056_37 = R[1];
+Obj v__3513059_37 = R[2];
+if (True == v__3513398_37) {
+Obj v__3513399_37 = PRIM_CAR(v__3513056_37);
+Obj v__3513400_37 = PRIM_EQ(v__3513399_37, getBinding(co, packageID, 110).name);
+if (True == v__3513400_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513053_37, True);
+coraCall1(co, v__3513059_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513053_37, False);
+coraCall1(co, v__3513059_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513053_37, False);
+coraCall1(co, v__3513059_37, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513052_37 = R[1];
-if (True == _3513052_37) {
+Obj v__3513058_37 = R[1];
+if (True == v__3513058_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj _3513386_37= co->res;
-Obj _3513385_37 = R[1];
-Obj _3513387_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3513388_37 = makeCons(co->gc, _3513387_37, Nil);
-Obj _3513389_37 = makeCons(co->gc, _3513386_37, _3513388_37);
-Obj _3513390_37 = makeCons(co->gc, _3513385_37, _3513389_37);
-Obj _3513391_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513390_37);
-coraReturn(co, _3513391_37);
+Obj v__3513392_37= co->res;
+Obj v__3513391_37 = R[1];
+Obj v__3513393_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3513394_37 = makeCons(co->gc, v__3513393_37, Nil);
+Obj v__3513395_37 = makeCons(co->gc, v__3513392_37, v__3513394_37);
+Obj v__3513396_37 = makeCons(co->gc, v__3513391_37, v__3513395_37);
+Obj v__3513397_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513396_37);
+coraReturn(co, v__3513397_37);
 return;
 }
 case 2:
 {
-Obj _3513385_37= co->res;
-R[1] = _3513385_37;
+Obj v__3513391_37= co->res;
+R[1] = v__3513391_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3075,52 +3075,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), pat);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v_pat);
 return;
 }
 case 1:
 {
-Obj _3513381_37= co->res;
+Obj v__3513387_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), _3513381_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513387_37);
 return;
 }
 case 2:
 {
-Obj _3513368_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3513368_37) {
-Obj _3513369_37 = PRIM_CAR(pat);
-Obj _3513370_37 = PRIM_EQ(_3513369_37, getBinding(co, packageID, 139).name);
-if (True == _3513370_37) {
-Obj _3513371_37 = makeCons(co->gc, expr, Nil);
-Obj _3513372_37 = makeCons(co->gc, pat, _3513371_37);
-Obj _3513373_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513372_37);
-Obj _3513374_37 = makeCons(co->gc, cc, Nil);
-Obj _3513375_37 = makeCons(co->gc, _3513374_37, Nil);
-Obj _3513376_37 = makeCons(co->gc, body, _3513375_37);
-Obj _3513377_37 = makeCons(co->gc, _3513373_37, _3513376_37);
-Obj _3513378_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513377_37);
-coraReturn(co, _3513378_37);
+Obj v__3513374_37= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == v__3513374_37) {
+Obj v__3513375_37 = PRIM_CAR(v_pat);
+Obj v__3513376_37 = PRIM_EQ(v__3513375_37, getBinding(co, packageID, 139).name);
+if (True == v__3513376_37) {
+Obj v__3513377_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513378_37 = makeCons(co->gc, v_pat, v__3513377_37);
+Obj v__3513379_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513378_37);
+Obj v__3513380_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513381_37 = makeCons(co->gc, v__3513380_37, Nil);
+Obj v__3513382_37 = makeCons(co->gc, v_body, v__3513381_37);
+Obj v__3513383_37 = makeCons(co->gc, v__3513379_37, v__3513382_37);
+Obj v__3513384_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513383_37);
+coraReturn(co, v__3513384_37);
 return;
 } else {
-Obj _3513379_37 = PRIM_CAR(pat);
-Obj _3513380_37 = PRIM_EQ(_3513379_37, getBinding(co, packageID, 152).name);
-if (True == _3513380_37) {
+Obj v__3513385_37 = PRIM_CAR(v_pat);
+Obj v__3513386_37 = PRIM_EQ(v__3513385_37, getBinding(co, packageID, 152).name);
+if (True == v__3513386_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), pat, expr, body, cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
 } else {
 co->ctx.sp = R;
@@ -3130,50 +3130,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v_pat);
 return;
 }
 }
 case 3:
 {
-Obj _3513353_37= co->res;
-Obj expr = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj pat = R[4];
-if (True == _3513353_37) {
-Obj _3513354_37 = PRIM_EQ(pat, expr);
-if (True == _3513354_37) {
-coraReturn(co, body);
-return;
-} else {
-Obj _3513355_37 = makeCons(co->gc, expr, Nil);
-Obj _3513356_37 = makeCons(co->gc, pat, _3513355_37);
-Obj _3513357_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3513356_37);
-Obj _3513358_37 = makeCons(co->gc, cc, Nil);
-Obj _3513359_37 = makeCons(co->gc, _3513358_37, Nil);
-Obj _3513360_37 = makeCons(co->gc, body, _3513359_37);
-Obj _3513361_37 = makeCons(co->gc, _3513357_37, _3513360_37);
-Obj _3513362_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513361_37);
-coraReturn(co, _3513362_37);
-return;
-}
-} else {
-Obj _3513363_37 = primIsSymbol(pat);
-if (True == _3513363_37) {
-Obj _3513364_37 = makeCons(co->gc, body, Nil);
-Obj _3513365_37 = makeCons(co->gc, expr, _3513364_37);
-Obj _3513366_37 = makeCons(co->gc, pat, _3513365_37);
-Obj _3513367_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513366_37);
-coraReturn(co, _3513367_37);
-return;
-} else {
-R[1] = expr;
-R[2] = body;
-R[3] = cc;
-R[4] = pat;
+Obj v__3513359_37= co->res;
+Obj v_expr = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_pat = R[4];
+if (True == v__3513359_37) {
+Obj v__3513360_37 = PRIM_EQ(v_pat, v_expr);
+if (True == v__3513360_37) {
+coraReturn(co, v_body);
+return;
+} else {
+Obj v__3513361_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513362_37 = makeCons(co->gc, v_pat, v__3513361_37);
+Obj v__3513363_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513362_37);
+Obj v__3513364_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513365_37 = makeCons(co->gc, v__3513364_37, Nil);
+Obj v__3513366_37 = makeCons(co->gc, v_body, v__3513365_37);
+Obj v__3513367_37 = makeCons(co->gc, v__3513363_37, v__3513366_37);
+Obj v__3513368_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513367_37);
+coraReturn(co, v__3513368_37);
+return;
+}
+} else {
+Obj v__3513369_37 = primIsSymbol(v_pat);
+if (True == v__3513369_37) {
+Obj v__3513370_37 = makeCons(co->gc, v_body, Nil);
+Obj v__3513371_37 = makeCons(co->gc, v_expr, v__3513370_37);
+Obj v__3513372_37 = makeCons(co->gc, v_pat, v__3513371_37);
+Obj v__3513373_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513372_37);
+coraReturn(co, v__3513373_37);
+return;
+} else {
+R[1] = v_expr;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_pat;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_pat);
 return;
 }
 }
@@ -3185,20 +3185,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-R[1] = x;
+Obj v_x = R[1];
+R[1] = v_x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_x);
 return;
 }
 case 1:
 {
-Obj _3513350_37= co->res;
-Obj x = R[1];
-if (True == _3513350_37) {
-Obj _3513351_37 = primIsSymbol(x);
-Obj _3513352_37 = primNot(_3513351_37);
-if (True == _3513352_37) {
+Obj v__3513356_37= co->res;
+Obj v_x = R[1];
+if (True == v__3513356_37) {
+Obj v__3513357_37 = primIsSymbol(v_x);
+Obj v__3513358_37 = primNot(v__3513357_37);
+if (True == v__3513358_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3217,60 +3217,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj expr = R[2];
-Obj body = R[3];
-Obj cc = R[4];
-R[1] = pat;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v_pat = R[1];
+Obj v_expr = R[2];
+Obj v_body = R[3];
+Obj v_cc = R[4];
+R[1] = v_pat;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_pat);
 return;
 }
 case 1:
 {
-Obj _3513329_37= co->res;
-Obj _3513043_37 = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj _3513044_37 = _3513329_37;
-Obj _3513047_37 = makeNative(co->gc, 3, clofun35, 1, 5, _3513043_37, _3513044_37, expr, body, cc);
-Obj _3513346_37 = PRIM_ISCONS(expr);
-if (True == _3513346_37) {
-Obj _3513347_37 = PRIM_CAR(expr);
-Obj _3513348_37 = PRIM_EQ(_3513347_37, getBinding(co, packageID, 152).name);
-if (True == _3513348_37) {
+Obj v__3513335_37= co->res;
+Obj v__3513049_37 = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj v__3513050_37 = v__3513335_37;
+Obj v__3513053_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513049_37, v__3513050_37, v_expr, v_body, v_cc);
+Obj v__3513352_37 = PRIM_ISCONS(v_expr);
+if (True == v__3513352_37) {
+Obj v__3513353_37 = PRIM_CAR(v_expr);
+Obj v__3513354_37 = PRIM_EQ(v__3513353_37, getBinding(co, packageID, 152).name);
+if (True == v__3513354_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513047_37, True);
+coraCall1(co, v__3513053_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513047_37, False);
+coraCall1(co, v__3513053_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513047_37, False);
+coraCall1(co, v__3513053_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3513328_37= co->res;
-Obj pat = R[1];
-Obj body = R[2];
-Obj cc = R[3];
-Obj expr = R[4];
-Obj _3513043_37 = _3513328_37;
-R[1] = _3513043_37;
-R[2] = body;
-R[3] = cc;
-R[4] = expr;
+Obj v__3513334_37= co->res;
+Obj v_pat = R[1];
+Obj v_body = R[2];
+Obj v_cc = R[3];
+Obj v_expr = R[4];
+Obj v__3513049_37 = v__3513334_37;
+R[1] = v__3513049_37;
+R[2] = v_body;
+R[3] = v_cc;
+R[4] = v_expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_pat);
 return;
 }
 }
@@ -3280,72 +3280,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513046_37 = R[1];
-if (True == _3513046_37) {
+Obj v__3513052_37 = R[1];
+if (True == v__3513052_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj _3513333_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3513334_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3513333_37);
-Obj _3513335_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3513336_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3513335_37);
-Obj _3513337_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj _3513338_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3513337_37);
-R[1] = _3513336_37;
-R[2] = _3513334_37;
+Obj v__3513339_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513340_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513339_37);
+Obj v__3513341_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513342_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513341_37);
+Obj v__3513343_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513344_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513343_37);
+R[1] = v__3513342_37;
+R[2] = v__3513340_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3513338_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513344_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj _3513332_37= co->res;
-Obj _3513048_37 = R[1];
+Obj v__3513338_37= co->res;
+Obj v__3513054_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3513048_37, _3513332_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513054_37, v__3513338_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj _3513331_37= co->res;
-Obj _3513048_37 = R[1];
-Obj _3513049_37 = _3513331_37;
-R[1] = _3513048_37;
+Obj v__3513337_37= co->res;
+Obj v__3513054_37 = R[1];
+Obj v__3513055_37 = v__3513337_37;
+R[1] = v__3513054_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), _3513049_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513055_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3513330_37= co->res;
-Obj _3513048_37 = _3513330_37;
-R[1] = _3513048_37;
+Obj v__3513336_37= co->res;
+Obj v__3513054_37 = v__3513336_37;
+R[1] = v__3513054_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj _3513340_37= co->res;
-Obj _3513334_37 = R[1];
-Obj _3513341_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj _3513342_37 = makeCons(co->gc, _3513341_37, Nil);
-Obj _3513343_37 = makeCons(co->gc, _3513340_37, _3513342_37);
-Obj _3513344_37 = makeCons(co->gc, _3513334_37, _3513343_37);
-Obj _3513345_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513344_37);
-coraReturn(co, _3513345_37);
+Obj v__3513346_37= co->res;
+Obj v__3513340_37 = R[1];
+Obj v__3513347_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3513348_37 = makeCons(co->gc, v__3513347_37, Nil);
+Obj v__3513349_37 = makeCons(co->gc, v__3513346_37, v__3513348_37);
+Obj v__3513350_37 = makeCons(co->gc, v__3513340_37, v__3513349_37);
+Obj v__3513351_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513350_37);
+coraReturn(co, v__3513351_37);
 return;
 }
 case 5:
 {
-Obj _3513339_37= co->res;
-Obj _3513336_37 = R[1];
-Obj _3513334_37 = R[2];
-R[1] = _3513334_37;
+Obj v__3513345_37= co->res;
+Obj v__3513342_37 = R[1];
+Obj v__3513340_37 = R[2];
+R[1] = v__3513340_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), _3513336_37, _3513339_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513342_37, v__3513345_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3355,10 +3355,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513326_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513332_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3513326_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513332_37);
 return;
 }
 }
@@ -3368,37 +3368,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj pat = R[1];
-Obj _3513316_37 = PRIM_CDR(pat);
-R[1] = pat;
+Obj v_pat = R[1];
+Obj v__3513322_37 = PRIM_CDR(v_pat);
+R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513316_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513322_37);
 return;
 }
 case 1:
 {
-Obj _3513321_37= co->res;
-Obj _3513319_37 = R[1];
-Obj _3513322_37 = makeCons(co->gc, _3513321_37, Nil);
-Obj _3513323_37 = makeCons(co->gc, _3513319_37, _3513322_37);
-Obj _3513324_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513323_37);
-coraReturn(co, _3513324_37);
+Obj v__3513327_37= co->res;
+Obj v__3513325_37 = R[1];
+Obj v__3513328_37 = makeCons(co->gc, v__3513327_37, Nil);
+Obj v__3513329_37 = makeCons(co->gc, v__3513325_37, v__3513328_37);
+Obj v__3513330_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513329_37);
+coraReturn(co, v__3513330_37);
 return;
 }
 case 2:
 {
-Obj _3513317_37= co->res;
-Obj pat = R[1];
-if (True == _3513317_37) {
-Obj _3513318_37 = PRIM_CAR(pat);
-coraReturn(co, _3513318_37);
+Obj v__3513323_37= co->res;
+Obj v_pat = R[1];
+if (True == v__3513323_37) {
+Obj v__3513324_37 = PRIM_CAR(v_pat);
+coraReturn(co, v__3513324_37);
 return;
 } else {
-Obj _3513319_37 = PRIM_CAR(pat);
-Obj _3513320_37 = PRIM_CDR(pat);
-R[1] = _3513319_37;
+Obj v__3513325_37 = PRIM_CAR(v_pat);
+Obj v__3513326_37 = PRIM_CDR(v_pat);
+R[1] = v__3513325_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), _3513320_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513326_37);
 return;
 }
 }
@@ -3409,14 +3409,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513313_37 = PRIM_EQ(x, True);
-if (True == _3513313_37) {
+Obj v_x = R[1];
+Obj v__3513319_37 = PRIM_EQ(v_x, True);
+if (True == v__3513319_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513314_37 = PRIM_EQ(x, False);
-if (True == _3513314_37) {
+Obj v__3513320_37 = PRIM_EQ(v_x, False);
+if (True == v__3513320_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3432,10 +3432,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513311_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513317_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3513311_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513317_37);
 return;
 }
 }
@@ -3445,42 +3445,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3513299_37 = PRIM_EQ(Nil, l);
-if (True == _3513299_37) {
+Obj v_l = R[1];
+Obj v__3513305_37 = PRIM_EQ(Nil, v_l);
+if (True == v__3513305_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513300_37 = PRIM_CAR(l);
-Obj _3513301_37 = PRIM_EQ(_3513300_37, False);
-if (True == _3513301_37) {
+Obj v__3513306_37 = PRIM_CAR(v_l);
+Obj v__3513307_37 = PRIM_EQ(v__3513306_37, False);
+if (True == v__3513307_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3513302_37 = PRIM_CDR(l);
-R[1] = l;
+Obj v__3513308_37 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), _3513302_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513308_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513303_37= co->res;
-Obj l = R[1];
-Obj _3513042_37 = _3513303_37;
-Obj _3513304_37 = PRIM_EQ(_3513042_37, False);
-if (True == _3513304_37) {
+Obj v__3513309_37= co->res;
+Obj v_l = R[1];
+Obj v__3513048_37 = v__3513309_37;
+Obj v__3513310_37 = PRIM_EQ(v__3513048_37, False);
+if (True == v__3513310_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3513305_37 = PRIM_CAR(l);
-Obj _3513306_37 = makeCons(co->gc, False, Nil);
-Obj _3513307_37 = makeCons(co->gc, _3513042_37, _3513306_37);
-Obj _3513308_37 = makeCons(co->gc, _3513305_37, _3513307_37);
-Obj _3513309_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513308_37);
-coraReturn(co, _3513309_37);
+Obj v__3513311_37 = PRIM_CAR(v_l);
+Obj v__3513312_37 = makeCons(co->gc, False, Nil);
+Obj v__3513313_37 = makeCons(co->gc, v__3513048_37, v__3513312_37);
+Obj v__3513314_37 = makeCons(co->gc, v__3513311_37, v__3513313_37);
+Obj v__3513315_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513314_37);
+coraReturn(co, v__3513315_37);
 return;
 }
 }
@@ -3491,10 +3491,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513297_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513303_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3513297_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513303_37);
 return;
 }
 }
@@ -3504,42 +3504,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj l = R[1];
-Obj _3513285_37 = PRIM_EQ(l, Nil);
-if (True == _3513285_37) {
+Obj v_l = R[1];
+Obj v__3513291_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513291_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3513286_37 = PRIM_CAR(l);
-Obj _3513287_37 = PRIM_EQ(_3513286_37, True);
-if (True == _3513287_37) {
+Obj v__3513292_37 = PRIM_CAR(v_l);
+Obj v__3513293_37 = PRIM_EQ(v__3513292_37, True);
+if (True == v__3513293_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513288_37 = PRIM_CDR(l);
-R[1] = l;
+Obj v__3513294_37 = PRIM_CDR(v_l);
+R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), _3513288_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513294_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3513289_37= co->res;
-Obj l = R[1];
-Obj _3513041_37 = _3513289_37;
-Obj _3513290_37 = PRIM_EQ(_3513041_37, True);
-if (True == _3513290_37) {
+Obj v__3513295_37= co->res;
+Obj v_l = R[1];
+Obj v__3513047_37 = v__3513295_37;
+Obj v__3513296_37 = PRIM_EQ(v__3513047_37, True);
+if (True == v__3513296_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513291_37 = PRIM_CAR(l);
-Obj _3513292_37 = makeCons(co->gc, _3513041_37, Nil);
-Obj _3513293_37 = makeCons(co->gc, True, _3513292_37);
-Obj _3513294_37 = makeCons(co->gc, _3513291_37, _3513293_37);
-Obj _3513295_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513294_37);
-coraReturn(co, _3513295_37);
+Obj v__3513297_37 = PRIM_CAR(v_l);
+Obj v__3513298_37 = makeCons(co->gc, v__3513047_37, Nil);
+Obj v__3513299_37 = makeCons(co->gc, True, v__3513298_37);
+Obj v__3513300_37 = makeCons(co->gc, v__3513297_37, v__3513299_37);
+Obj v__3513301_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513300_37);
+coraReturn(co, v__3513301_37);
 return;
 }
 }
@@ -3550,55 +3550,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513271_37 = PRIM_CDR(exp);
-Obj _3513272_37 = PRIM_EQ(Nil, _3513271_37);
-if (True == _3513272_37) {
-Obj _3513273_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj _3513274_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, _3513273_37);
-coraReturn(co, _3513274_37);
+Obj v_exp = R[1];
+Obj v__3513277_37 = PRIM_CDR(v_exp);
+Obj v__3513278_37 = PRIM_EQ(Nil, v__3513277_37);
+if (True == v__3513278_37) {
+Obj v__3513279_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3513280_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513279_37);
+coraReturn(co, v__3513280_37);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3513278_37= co->res;
-Obj _3513277_37 = R[1];
-Obj _3513276_37 = R[2];
-Obj _3513279_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, _3513278_37);
-Obj _3513280_37 = makeCons(co->gc, _3513279_37, Nil);
-Obj _3513281_37 = makeCons(co->gc, _3513277_37, _3513280_37);
-Obj _3513282_37 = makeCons(co->gc, _3513276_37, _3513281_37);
-Obj _3513283_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, _3513282_37);
-coraReturn(co, _3513283_37);
+Obj v__3513284_37= co->res;
+Obj v__3513283_37 = R[1];
+Obj v__3513282_37 = R[2];
+Obj v__3513285_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513284_37);
+Obj v__3513286_37 = makeCons(co->gc, v__3513285_37, Nil);
+Obj v__3513287_37 = makeCons(co->gc, v__3513283_37, v__3513286_37);
+Obj v__3513288_37 = makeCons(co->gc, v__3513282_37, v__3513287_37);
+Obj v__3513289_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513288_37);
+coraReturn(co, v__3513289_37);
 return;
 }
 case 2:
 {
-Obj _3513277_37= co->res;
-Obj exp = R[1];
-Obj _3513276_37 = R[2];
-R[1] = _3513277_37;
-R[2] = _3513276_37;
+Obj v__3513283_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513282_37 = R[2];
+R[1] = v__3513283_37;
+R[2] = v__3513282_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513275_37= co->res;
-Obj exp = R[1];
-Obj _3513040_37 = _3513275_37;
-Obj _3513276_37 = PRIM_CAR(_3513040_37);
-R[1] = exp;
-R[2] = _3513276_37;
+Obj v__3513281_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513046_37 = v__3513281_37;
+Obj v__3513282_37 = PRIM_CAR(v__3513046_37);
+R[1] = v_exp;
+R[2] = v__3513282_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), _3513040_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513046_37);
 return;
 }
 }
@@ -3608,10 +3608,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513269_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513275_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3513269_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513275_37);
 return;
 }
 }
@@ -3621,61 +3621,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513257_37 = PRIM_CDR(exp);
-R[1] = exp;
+Obj v_exp = R[1];
+Obj v__3513263_37 = PRIM_CDR(v_exp);
+R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), _3513257_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513263_37);
 return;
 }
 case 1:
 {
-Obj _3513263_37= co->res;
-Obj _3513261_37 = R[1];
-Obj _3513260_37 = R[2];
-Obj _3513264_37 = makeCons(co->gc, _3513263_37, Nil);
-Obj _3513265_37 = makeCons(co->gc, _3513261_37, _3513264_37);
-Obj _3513266_37 = makeCons(co->gc, _3513260_37, _3513265_37);
-Obj _3513267_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, _3513266_37);
-coraReturn(co, _3513267_37);
+Obj v__3513269_37= co->res;
+Obj v__3513267_37 = R[1];
+Obj v__3513266_37 = R[2];
+Obj v__3513270_37 = makeCons(co->gc, v__3513269_37, Nil);
+Obj v__3513271_37 = makeCons(co->gc, v__3513267_37, v__3513270_37);
+Obj v__3513272_37 = makeCons(co->gc, v__3513266_37, v__3513271_37);
+Obj v__3513273_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513272_37);
+coraReturn(co, v__3513273_37);
 return;
 }
 case 2:
 {
-Obj _3513262_37= co->res;
-Obj _3513261_37 = R[1];
-Obj _3513260_37 = R[2];
-R[1] = _3513261_37;
-R[2] = _3513260_37;
+Obj v__3513268_37= co->res;
+Obj v__3513267_37 = R[1];
+Obj v__3513266_37 = R[2];
+R[1] = v__3513267_37;
+R[2] = v__3513266_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3513262_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513268_37);
 return;
 }
 case 3:
 {
-Obj _3513261_37= co->res;
-Obj exp = R[1];
-Obj _3513260_37 = R[2];
-R[1] = _3513261_37;
-R[2] = _3513260_37;
+Obj v__3513267_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513266_37 = R[2];
+R[1] = v__3513267_37;
+R[2] = v__3513266_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3513258_37= co->res;
-Obj exp = R[1];
-if (True == _3513258_37) {
-Obj _3513259_37 = PRIM_CAR(exp);
-coraReturn(co, _3513259_37);
+Obj v__3513264_37= co->res;
+Obj v_exp = R[1];
+if (True == v__3513264_37) {
+Obj v__3513265_37 = PRIM_CAR(v_exp);
+coraReturn(co, v__3513265_37);
 return;
 } else {
-Obj _3513260_37 = PRIM_CAR(exp);
-R[1] = exp;
-R[2] = _3513260_37;
+Obj v__3513266_37 = PRIM_CAR(v_exp);
+R[1] = v_exp;
+R[2] = v__3513266_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 }
@@ -3686,10 +3686,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513254_37 = PRIM_ISCONS(x);
-Obj _3513255_37 = primNot(_3513254_37);
-coraReturn(co, _3513255_37);
+Obj v_x = R[1];
+Obj v__3513260_37 = PRIM_ISCONS(v_x);
+Obj v__3513261_37 = primNot(v__3513260_37);
+coraReturn(co, v__3513261_37);
 return;
 }
 }
@@ -3699,19 +3699,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
-Obj _3513249_37 = PRIM_ISCONS(l);
-if (True == _3513249_37) {
-Obj _3513250_37 = PRIM_CAR(l);
-Obj _3513251_37 = PRIM_EQ(_3513250_37, x);
-if (True == _3513251_37) {
+Obj v_x = R[1];
+Obj v_l = R[2];
+Obj v__3513255_37 = PRIM_ISCONS(v_l);
+if (True == v__3513255_37) {
+Obj v__3513256_37 = PRIM_CAR(v_l);
+Obj v__3513257_37 = PRIM_EQ(v__3513256_37, v_x);
+if (True == v__3513257_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj _3513252_37 = PRIM_CDR(l);
+Obj v__3513258_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), x, _3513252_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513258_37);
 return;
 }
 } else {
@@ -3726,45 +3726,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513241_37= co->res;
-Obj _3513240_37 = R[1];
-Obj _3513239_37 = R[2];
-Obj _3513242_37 = makeCons(co->gc, _3513241_37, Nil);
-Obj _3513243_37 = makeCons(co->gc, _3513240_37, _3513242_37);
-Obj _3513244_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513243_37);
-Obj _3513245_37 = makeCons(co->gc, _3513244_37, Nil);
-Obj _3513246_37 = makeCons(co->gc, _3513239_37, _3513245_37);
-Obj _3513247_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, _3513246_37);
-coraReturn(co, _3513247_37);
+Obj v__3513247_37= co->res;
+Obj v__3513246_37 = R[1];
+Obj v__3513245_37 = R[2];
+Obj v__3513248_37 = makeCons(co->gc, v__3513247_37, Nil);
+Obj v__3513249_37 = makeCons(co->gc, v__3513246_37, v__3513248_37);
+Obj v__3513250_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513249_37);
+Obj v__3513251_37 = makeCons(co->gc, v__3513250_37, Nil);
+Obj v__3513252_37 = makeCons(co->gc, v__3513245_37, v__3513251_37);
+Obj v__3513253_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513252_37);
+coraReturn(co, v__3513253_37);
 return;
 }
 case 2:
 {
-Obj _3513240_37= co->res;
-Obj exp = R[1];
-Obj _3513239_37 = R[2];
-R[1] = _3513240_37;
-R[2] = _3513239_37;
+Obj v__3513246_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513245_37 = R[2];
+R[1] = v__3513246_37;
+R[2] = v__3513245_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513239_37= co->res;
-Obj exp = R[1];
-R[1] = exp;
-R[2] = _3513239_37;
+Obj v__3513245_37= co->res;
+Obj v_exp = R[1];
+R[1] = v_exp;
+R[2] = v__3513245_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 }
@@ -3774,10 +3774,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513237_37 = PRIM_CDR(exp);
+Obj v_exp = R[1];
+Obj v__3513243_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3513237_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513243_37);
 return;
 }
 }
@@ -3787,46 +3787,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3513229_37= co->res;
-Obj _3513228_37 = R[1];
-Obj _3513227_37 = R[2];
-Obj _3513230_37 = makeCons(co->gc, _3513228_37, _3513229_37);
-Obj _3513231_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513230_37);
-Obj _3513232_37 = makeCons(co->gc, _3513231_37, Nil);
-Obj _3513233_37 = makeCons(co->gc, _3513227_37, _3513232_37);
-Obj _3513234_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, _3513233_37);
-coraReturn(co, _3513234_37);
+Obj v__3513235_37= co->res;
+Obj v__3513234_37 = R[1];
+Obj v__3513233_37 = R[2];
+Obj v__3513236_37 = makeCons(co->gc, v__3513234_37, v__3513235_37);
+Obj v__3513237_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513236_37);
+Obj v__3513238_37 = makeCons(co->gc, v__3513237_37, Nil);
+Obj v__3513239_37 = makeCons(co->gc, v__3513233_37, v__3513238_37);
+Obj v__3513240_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513239_37);
+coraReturn(co, v__3513240_37);
 return;
 }
 case 2:
 {
-Obj _3513228_37= co->res;
-Obj exp = R[1];
-Obj _3513227_37 = R[2];
-R[1] = _3513228_37;
-R[2] = _3513227_37;
+Obj v__3513234_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513233_37 = R[2];
+R[1] = v__3513234_37;
+R[2] = v__3513233_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj _3513225_37= co->res;
-Obj exp = R[1];
-Obj _3513226_37 = makeCons(co->gc, _3513225_37, Nil);
-Obj _3513227_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, _3513226_37);
-R[1] = exp;
-R[2] = _3513227_37;
+Obj v__3513231_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513232_37 = makeCons(co->gc, v__3513231_37, Nil);
+Obj v__3513233_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513232_37);
+R[1] = v_exp;
+R[2] = v__3513233_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 }
@@ -3836,76 +3836,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513207_37 = PRIM_ISCONS(exp);
-if (True == _3513207_37) {
-Obj _3513208_37 = PRIM_CAR(exp);
-Obj _3513209_37 = PRIM_EQ(_3513208_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == _3513209_37) {
-Obj _3513210_37 = PRIM_CDR(exp);
-coraReturn(co, _3513210_37);
+Obj v_exp = R[1];
+Obj v__3513213_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513213_37) {
+Obj v__3513214_37 = PRIM_CAR(v_exp);
+Obj v__3513215_37 = PRIM_EQ(v__3513214_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v__3513215_37) {
+Obj v__3513216_37 = PRIM_CDR(v_exp);
+coraReturn(co, v__3513216_37);
 return;
 } else {
-Obj _3513211_37 = PRIM_CAR(exp);
-Obj _3513212_37 = PRIM_EQ(_3513211_37, getBinding(co, packageID, 140).name);
-if (True == _3513212_37) {
-R[1] = exp;
+Obj v__3513217_37 = PRIM_CAR(v_exp);
+Obj v__3513218_37 = PRIM_EQ(v__3513217_37, getBinding(co, packageID, 140).name);
+if (True == v__3513218_37) {
+R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj _3513219_37 = PRIM_CAR(exp);
-Obj _3513220_37 = PRIM_EQ(_3513219_37, getBinding(co, packageID, 139).name);
-if (True == _3513220_37) {
-coraReturn(co, exp);
+Obj v__3513225_37 = PRIM_CAR(v_exp);
+Obj v__3513226_37 = PRIM_EQ(v__3513225_37, getBinding(co, packageID, 139).name);
+if (True == v__3513226_37) {
+coraReturn(co, v_exp);
 return;
 } else {
-R[1] = exp;
+R[1] = v_exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
 return;
 }
 }
 }
 } else {
-coraReturn(co, exp);
+coraReturn(co, v_exp);
 return;
 }
 }
 case 1:
 {
-Obj _3513215_37= co->res;
-Obj _3513213_37 = R[1];
-Obj _3513216_37 = makeCons(co->gc, _3513215_37, Nil);
-Obj _3513217_37 = makeCons(co->gc, _3513213_37, _3513216_37);
-Obj _3513218_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, _3513217_37);
-coraReturn(co, _3513218_37);
+Obj v__3513221_37= co->res;
+Obj v__3513219_37 = R[1];
+Obj v__3513222_37 = makeCons(co->gc, v__3513221_37, Nil);
+Obj v__3513223_37 = makeCons(co->gc, v__3513219_37, v__3513222_37);
+Obj v__3513224_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513223_37);
+coraReturn(co, v__3513224_37);
 return;
 }
 case 2:
 {
-Obj _3513214_37= co->res;
-Obj _3513213_37 = R[1];
-R[1] = _3513213_37;
+Obj v__3513220_37= co->res;
+Obj v__3513219_37 = R[1];
+R[1] = v__3513219_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), _3513214_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513220_37);
 return;
 }
 case 3:
 {
-Obj _3513213_37= co->res;
-Obj exp = R[1];
-R[1] = _3513213_37;
+Obj v__3513219_37= co->res;
+Obj v_exp = R[1];
+R[1] = v__3513219_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj _3513222_37= co->res;
-Obj exp = R[1];
+Obj v__3513228_37= co->res;
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, exp), _3513222_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513228_37);
 return;
 }
 }
@@ -3915,15 +3915,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp1 = R[1];
-Obj _3513221_37 = PRIM_EQ(exp1, closureRef(R[0], 0));
-if (True == _3513221_37) {
+Obj v_exp1 = R[1];
+Obj v__3513227_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v__3513227_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
 }
 }
@@ -3934,9 +3934,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v_exp, globalRef(co, getBinding(co, packageID, 146)));
 return;
 }
 }
@@ -3946,16 +3946,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj macros = R[2];
-Obj _3513197_37 = PRIM_EQ(Nil, macros);
-if (True == _3513197_37) {
-coraReturn(co, exp);
+Obj v_exp = R[1];
+Obj v_macros = R[2];
+Obj v__3513203_37 = PRIM_EQ(Nil, v_macros);
+if (True == v__3513203_37) {
+coraReturn(co, v_exp);
 return;
 } else {
-Obj _3513204_37 = PRIM_CAR(macros);
+Obj v__3513210_37 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, macros, exp), _3513204_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513210_37);
 return;
 }
 }
@@ -3966,25 +3966,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj item = R[1];
-Obj _3513039_37 = makeNative(co->gc, 2, clofun14, 1, 3, item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3513200_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3513200_37) {
-Obj _3513201_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3513202_37 = PRIM_CAR(item);
-Obj _3513203_37 = PRIM_EQ(_3513201_37, _3513202_37);
-if (True == _3513203_37) {
+Obj v_item = R[1];
+Obj v__3513045_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3513206_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513206_37) {
+Obj v__3513207_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513208_37 = PRIM_CAR(v_item);
+Obj v__3513209_37 = PRIM_EQ(v__3513207_37, v__3513208_37);
+if (True == v__3513209_37) {
 co->ctx.sp = R;
-coraCall1(co, _3513039_37, True);
+coraCall1(co, v__3513045_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513039_37, False);
+coraCall1(co, v__3513045_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3513039_37, False);
+coraCall1(co, v__3513045_37, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3513038_37 = R[1];
-if (True == _3513038_37) {
-Obj _3513198_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513044_37 = R[1];
+if (True == v__3513044_37) {
+Obj v__3513204_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, _3513198_37, closureRef(R[0], 1));
+coraCall1(co, v__3513204_37, closureRef(R[0], 1));
 return;
 } else {
-Obj _3513199_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513205_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), _3513199_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513205_37);
 return;
 }
 }
@@ -4015,12 +4015,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj n = R[1];
-Obj v = R[2];
-Obj _3513193_37 = makeCons(co->gc, n, v);
-Obj _3513194_37 = makeCons(co->gc, _3513193_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj _3513195_37 = primSet(co, getBinding(co, packageID, 146).name, _3513194_37);
-coraReturn(co, _3513195_37);
+Obj v_n = R[1];
+Obj v_v = R[2];
+Obj v__3513199_37 = makeCons(co->gc, v_n, v_v);
+Obj v__3513200_37 = makeCons(co->gc, v__3513199_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj v__3513201_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513200_37);
+coraReturn(co, v__3513201_37);
 return;
 }
 }
@@ -4030,10 +4030,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f = R[1];
-Obj l = R[2];
+Obj v_f = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, f, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v_f, v_l);
 return;
 }
 }
@@ -4043,34 +4043,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj f = R[2];
-Obj l = R[3];
-Obj _3513183_37 = PRIM_ISCONS(l);
-if (True == _3513183_37) {
-Obj _3513184_37 = PRIM_CAR(l);
-R[1] = res;
-R[2] = l;
-R[3] = f;
+Obj v_res = R[1];
+Obj v_f = R[2];
+Obj v_l = R[3];
+Obj v__3513189_37 = PRIM_ISCONS(v_l);
+if (True == v__3513189_37) {
+Obj v__3513190_37 = PRIM_CAR(v_l);
+R[1] = v_res;
+R[2] = v_l;
+R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, f, _3513184_37);
+coraCall1(co, v_f, v__3513190_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj _3513185_37= co->res;
-Obj res = R[1];
-Obj l = R[2];
-Obj f = R[3];
-Obj _3513186_37 = makeCons(co->gc, _3513185_37, res);
-Obj _3513187_37 = PRIM_CDR(l);
+Obj v__3513191_37= co->res;
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v_f = R[3];
+Obj v__3513192_37 = makeCons(co->gc, v__3513191_37, v_res);
+Obj v__3513193_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), _3513186_37, f, _3513187_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513192_37, v_f, v__3513193_37);
 return;
 }
 }
@@ -4080,18 +4080,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj res = R[1];
-Obj l = R[2];
-Obj _3513176_37 = PRIM_ISCONS(l);
-if (True == _3513176_37) {
-Obj _3513177_37 = PRIM_CAR(l);
-Obj _3513178_37 = makeCons(co->gc, _3513177_37, res);
-Obj _3513179_37 = PRIM_CDR(l);
+Obj v_res = R[1];
+Obj v_l = R[2];
+Obj v__3513182_37 = PRIM_ISCONS(v_l);
+if (True == v__3513182_37) {
+Obj v__3513183_37 = PRIM_CAR(v_l);
+Obj v__3513184_37 = makeCons(co->gc, v__3513183_37, v_res);
+Obj v__3513185_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), _3513178_37, _3513179_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513184_37, v__3513185_37);
 return;
 } else {
-coraReturn(co, res);
+coraReturn(co, v_res);
 return;
 }
 }
@@ -4102,9 +4102,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513174_37 = PRIM_ISCONS(x);
-coraReturn(co, _3513174_37);
+Obj v_x = R[1];
+Obj v__3513180_37 = PRIM_ISCONS(v_x);
+coraReturn(co, v__3513180_37);
 return;
 }
 }
@@ -4114,14 +4114,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-Obj _3513166_37 = PRIM_ISCONS(exp);
-if (True == _3513166_37) {
-Obj _3513167_37 = PRIM_CAR(exp);
-Obj _3513168_37 = PRIM_CDR(exp);
-R[1] = _3513167_37;
+Obj v_exp = R[1];
+Obj v__3513172_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513172_37) {
+Obj v__3513173_37 = PRIM_CAR(v_exp);
+Obj v__3513174_37 = PRIM_CDR(v_exp);
+R[1] = v__3513173_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), _3513168_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513174_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj _3513169_37= co->res;
-Obj _3513167_37 = R[1];
-Obj _3513170_37 = makeCons(co->gc, _3513169_37, Nil);
-Obj _3513171_37 = makeCons(co->gc, _3513167_37, _3513170_37);
-Obj _3513172_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, _3513171_37);
-coraReturn(co, _3513172_37);
+Obj v__3513175_37= co->res;
+Obj v__3513173_37 = R[1];
+Obj v__3513176_37 = makeCons(co->gc, v__3513175_37, Nil);
+Obj v__3513177_37 = makeCons(co->gc, v__3513173_37, v__3513176_37);
+Obj v__3513178_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513177_37);
+coraReturn(co, v__3513178_37);
 return;
 }
 }
@@ -4145,11 +4145,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513162_37 = PRIM_CDR(x);
-Obj _3513163_37 = PRIM_CDR(_3513162_37);
-Obj _3513164_37 = PRIM_CDR(_3513163_37);
-coraReturn(co, _3513164_37);
+Obj v_x = R[1];
+Obj v__3513168_37 = PRIM_CDR(v_x);
+Obj v__3513169_37 = PRIM_CDR(v__3513168_37);
+Obj v__3513170_37 = PRIM_CDR(v__3513169_37);
+coraReturn(co, v__3513170_37);
 return;
 }
 }
@@ -4159,12 +4159,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513157_37 = PRIM_CDR(x);
-Obj _3513158_37 = PRIM_CDR(_3513157_37);
-Obj _3513159_37 = PRIM_CDR(_3513158_37);
-Obj _3513160_37 = PRIM_CAR(_3513159_37);
-coraReturn(co, _3513160_37);
+Obj v_x = R[1];
+Obj v__3513163_37 = PRIM_CDR(v_x);
+Obj v__3513164_37 = PRIM_CDR(v__3513163_37);
+Obj v__3513165_37 = PRIM_CDR(v__3513164_37);
+Obj v__3513166_37 = PRIM_CAR(v__3513165_37);
+coraReturn(co, v__3513166_37);
 return;
 }
 }
@@ -4174,11 +4174,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513153_37 = PRIM_CDR(x);
-Obj _3513154_37 = PRIM_CDR(_3513153_37);
-Obj _3513155_37 = PRIM_CAR(_3513154_37);
-coraReturn(co, _3513155_37);
+Obj v_x = R[1];
+Obj v__3513159_37 = PRIM_CDR(v_x);
+Obj v__3513160_37 = PRIM_CDR(v__3513159_37);
+Obj v__3513161_37 = PRIM_CAR(v__3513160_37);
+coraReturn(co, v__3513161_37);
 return;
 }
 }
@@ -4188,10 +4188,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513150_37 = PRIM_CDR(x);
-Obj _3513151_37 = PRIM_CDR(_3513150_37);
-coraReturn(co, _3513151_37);
+Obj v_x = R[1];
+Obj v__3513156_37 = PRIM_CDR(v_x);
+Obj v__3513157_37 = PRIM_CDR(v__3513156_37);
+coraReturn(co, v__3513157_37);
 return;
 }
 }
@@ -4201,10 +4201,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513147_37 = PRIM_CAR(x);
-Obj _3513148_37 = PRIM_CDR(_3513147_37);
-coraReturn(co, _3513148_37);
+Obj v_x = R[1];
+Obj v__3513153_37 = PRIM_CAR(v_x);
+Obj v__3513154_37 = PRIM_CDR(v__3513153_37);
+coraReturn(co, v__3513154_37);
 return;
 }
 }
@@ -4214,10 +4214,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513144_37 = PRIM_CAR(x);
-Obj _3513145_37 = PRIM_CAR(_3513144_37);
-coraReturn(co, _3513145_37);
+Obj v_x = R[1];
+Obj v__3513150_37 = PRIM_CAR(v_x);
+Obj v__3513151_37 = PRIM_CAR(v__3513150_37);
+coraReturn(co, v__3513151_37);
 return;
 }
 }
@@ -4227,10 +4227,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513141_37 = PRIM_CDR(x);
-Obj _3513142_37 = PRIM_CAR(_3513141_37);
-coraReturn(co, _3513142_37);
+Obj v_x = R[1];
+Obj v__3513147_37 = PRIM_CDR(v_x);
+Obj v__3513148_37 = PRIM_CAR(v__3513147_37);
+coraReturn(co, v__3513148_37);
 return;
 }
 }
@@ -4240,9 +4240,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3513139_37 = PRIM_EQ(x, Nil);
-coraReturn(co, _3513139_37);
+Obj v_x = R[1];
+Obj v__3513145_37 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v__3513145_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 669a595..f1dc848 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -300,152 +300,152 @@ return;
 }
 case 1:
 {
-Obj _3519096_37= co->res;
-Obj _3519102_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj _3519108_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj _3519130_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
-Obj _3519153_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun116, 4, 0));
-Obj _3519165_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun119, 3, 0));
-Obj _3519206_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
-Obj _3519245_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
-Obj _3519297_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj _3519298_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj _3519312_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
-Obj _3519313_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj _3519326_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
-Obj _3519336_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
-coraReturn(co, _3519336_37);
+Obj v__3519102_37= co->res;
+Obj v__3519108_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v__3519114_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v__3519136_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
+Obj v__3519160_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun116, 4, 0));
+Obj v__3519172_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun119, 3, 0));
+Obj v__3519213_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
+Obj v__3519252_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
+Obj v__3519304_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
+Obj v__3519305_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj v__3519319_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
+Obj v__3519320_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v__3519333_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
+Obj v__3519343_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
+coraReturn(co, v__3519343_37);
 return;
 }
 case 2:
 {
-Obj _3517708_37= co->res;
-Obj _3517709_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj _3517724_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj _3517730_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj _3517740_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj _3517741_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj _3517748_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj _3517749_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj _3517750_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517749_37);
-Obj _3517751_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, _3517750_37);
-Obj _3517752_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj _3517753_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517752_37);
-Obj _3517754_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, _3517753_37);
-Obj _3517755_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj _3517756_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517755_37);
-Obj _3517757_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, _3517756_37);
-Obj _3517758_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj _3517759_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517758_37);
-Obj _3517760_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, _3517759_37);
-Obj _3517761_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj _3517762_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517761_37);
-Obj _3517763_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, _3517762_37);
-Obj _3517764_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj _3517765_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517764_37);
-Obj _3517766_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, _3517765_37);
-Obj _3517767_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj _3517768_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517767_37);
-Obj _3517769_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, _3517768_37);
-Obj _3517770_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj _3517771_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517770_37);
-Obj _3517772_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, _3517771_37);
-Obj _3517773_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj _3517774_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517773_37);
-Obj _3517775_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, _3517774_37);
-Obj _3517776_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj _3517777_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517776_37);
-Obj _3517778_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, _3517777_37);
-Obj _3517779_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj _3517780_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517779_37);
-Obj _3517781_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, _3517780_37);
-Obj _3517782_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj _3517783_37 = makeCons(co->gc, MAKE_NUMBER(2), _3517782_37);
-Obj _3517784_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, _3517783_37);
-Obj _3517785_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj _3517786_37 = makeCons(co->gc, MAKE_NUMBER(0), _3517785_37);
-Obj _3517787_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, _3517786_37);
-Obj _3517788_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj _3517789_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517788_37);
-Obj _3517790_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, _3517789_37);
-Obj _3517791_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj _3517792_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517791_37);
-Obj _3517793_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, _3517792_37);
-Obj _3517794_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj _3517795_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517794_37);
-Obj _3517796_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, _3517795_37);
-Obj _3517797_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj _3517798_37 = makeCons(co->gc, MAKE_NUMBER(1), _3517797_37);
-Obj _3517799_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, _3517798_37);
-Obj _3517800_37 = makeCons(co->gc, _3517799_37, Nil);
-Obj _3517801_37 = makeCons(co->gc, _3517796_37, _3517800_37);
-Obj _3517802_37 = makeCons(co->gc, _3517793_37, _3517801_37);
-Obj _3517803_37 = makeCons(co->gc, _3517790_37, _3517802_37);
-Obj _3517804_37 = makeCons(co->gc, _3517787_37, _3517803_37);
-Obj _3517805_37 = makeCons(co->gc, _3517784_37, _3517804_37);
-Obj _3517806_37 = makeCons(co->gc, _3517781_37, _3517805_37);
-Obj _3517807_37 = makeCons(co->gc, _3517778_37, _3517806_37);
-Obj _3517808_37 = makeCons(co->gc, _3517775_37, _3517807_37);
-Obj _3517809_37 = makeCons(co->gc, _3517772_37, _3517808_37);
-Obj _3517810_37 = makeCons(co->gc, _3517769_37, _3517809_37);
-Obj _3517811_37 = makeCons(co->gc, _3517766_37, _3517810_37);
-Obj _3517812_37 = makeCons(co->gc, _3517763_37, _3517811_37);
-Obj _3517813_37 = makeCons(co->gc, _3517760_37, _3517812_37);
-Obj _3517814_37 = makeCons(co->gc, _3517757_37, _3517813_37);
-Obj _3517815_37 = makeCons(co->gc, _3517754_37, _3517814_37);
-Obj _3517816_37 = makeCons(co->gc, _3517751_37, _3517815_37);
-Obj _3517817_37 = primSet(co, getBinding(co, packageID, 122).name, _3517816_37);
-Obj _3517821_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj _3517824_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj _3517827_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj _3517832_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj _3518032_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun21, 3, 0));
-Obj _3518043_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun23, 2, 0));
-Obj _3518054_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun25, 2, 0));
-Obj _3518115_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj _3518290_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun42, 1, 0));
-Obj _3518363_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
-Obj _3518366_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
-Obj _3518503_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj _3518526_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj _3518603_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj _3518634_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
-Obj _3518640_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
-Obj _3518645_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
-Obj _3518654_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
-Obj _3518705_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
-Obj _3518713_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
-Obj _3518720_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
-Obj _3518725_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj _3518731_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
-Obj _3518732_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj _3518739_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
-Obj _3518746_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj _3519033_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
-Obj _3519047_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj _3519069_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
-Obj _3519071_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj _3519075_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj _3519076_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj _3519077_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj _3519078_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj _3519079_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj _3519086_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
-Obj _3519093_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
+Obj v__3517714_37= co->res;
+Obj v__3517715_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj v__3517730_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3517736_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3517746_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3517747_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3517754_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3517755_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3517756_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517755_37);
+Obj v__3517757_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517756_37);
+Obj v__3517758_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3517759_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517758_37);
+Obj v__3517760_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517759_37);
+Obj v__3517761_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3517762_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517761_37);
+Obj v__3517763_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517762_37);
+Obj v__3517764_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3517765_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517764_37);
+Obj v__3517766_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517765_37);
+Obj v__3517767_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3517768_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517767_37);
+Obj v__3517769_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517768_37);
+Obj v__3517770_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3517771_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517770_37);
+Obj v__3517772_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517771_37);
+Obj v__3517773_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3517774_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517773_37);
+Obj v__3517775_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517774_37);
+Obj v__3517776_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3517777_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517776_37);
+Obj v__3517778_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517777_37);
+Obj v__3517779_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3517780_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517779_37);
+Obj v__3517781_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517780_37);
+Obj v__3517782_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3517783_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517782_37);
+Obj v__3517784_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517783_37);
+Obj v__3517785_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3517786_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517785_37);
+Obj v__3517787_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517786_37);
+Obj v__3517788_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3517789_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517788_37);
+Obj v__3517790_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517789_37);
+Obj v__3517791_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3517792_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517791_37);
+Obj v__3517793_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517792_37);
+Obj v__3517794_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3517795_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517794_37);
+Obj v__3517796_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517795_37);
+Obj v__3517797_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3517798_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517797_37);
+Obj v__3517799_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517798_37);
+Obj v__3517800_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3517801_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517800_37);
+Obj v__3517802_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3517801_37);
+Obj v__3517803_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3517804_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517803_37);
+Obj v__3517805_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3517804_37);
+Obj v__3517806_37 = makeCons(co->gc, v__3517805_37, Nil);
+Obj v__3517807_37 = makeCons(co->gc, v__3517802_37, v__3517806_37);
+Obj v__3517808_37 = makeCons(co->gc, v__3517799_37, v__3517807_37);
+Obj v__3517809_37 = makeCons(co->gc, v__3517796_37, v__3517808_37);
+Obj v__3517810_37 = makeCons(co->gc, v__3517793_37, v__3517809_37);
+Obj v__3517811_37 = makeCons(co->gc, v__3517790_37, v__3517810_37);
+Obj v__3517812_37 = makeCons(co->gc, v__3517787_37, v__3517811_37);
+Obj v__3517813_37 = makeCons(co->gc, v__3517784_37, v__3517812_37);
+Obj v__3517814_37 = makeCons(co->gc, v__3517781_37, v__3517813_37);
+Obj v__3517815_37 = makeCons(co->gc, v__3517778_37, v__3517814_37);
+Obj v__3517816_37 = makeCons(co->gc, v__3517775_37, v__3517815_37);
+Obj v__3517817_37 = makeCons(co->gc, v__3517772_37, v__3517816_37);
+Obj v__3517818_37 = makeCons(co->gc, v__3517769_37, v__3517817_37);
+Obj v__3517819_37 = makeCons(co->gc, v__3517766_37, v__3517818_37);
+Obj v__3517820_37 = makeCons(co->gc, v__3517763_37, v__3517819_37);
+Obj v__3517821_37 = makeCons(co->gc, v__3517760_37, v__3517820_37);
+Obj v__3517822_37 = makeCons(co->gc, v__3517757_37, v__3517821_37);
+Obj v__3517823_37 = primSet(co, getBinding(co, packageID, 122).name, v__3517822_37);
+Obj v__3517827_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3517830_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3517833_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3517838_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3518038_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun21, 3, 0));
+Obj v__3518049_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun23, 2, 0));
+Obj v__3518060_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun25, 2, 0));
+Obj v__3518121_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3518296_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun42, 1, 0));
+Obj v__3518369_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
+Obj v__3518372_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
+Obj v__3518509_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3518532_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj v__3518609_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
+Obj v__3518640_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
+Obj v__3518646_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
+Obj v__3518651_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v__3518660_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
+Obj v__3518711_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
+Obj v__3518719_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
+Obj v__3518726_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
+Obj v__3518731_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj v__3518737_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
+Obj v__3518738_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v__3518745_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
+Obj v__3518752_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj v__3519039_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
+Obj v__3519053_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj v__3519075_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
+Obj v__3519077_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
+Obj v__3519081_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v__3519082_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3519083_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
+Obj v__3519084_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v__3519085_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3519092_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
+Obj v__3519099_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
 saveCont(co, clofun145, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun110, 1, 0));
 return;
 }
 case 3:
 {
-Obj _3517707_37= co->res;
+Obj v__3517713_37= co->res;
 saveCont(co, clofun145, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj _3517706_37= co->res;
+Obj v__3517712_37= co->res;
 saveCont(co, clofun145, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -457,96 +457,96 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj from = R[1];
-Obj to = R[2];
-Obj _3519327_37 = primGenSym(co);
-Obj _3517703_37 = _3519327_37;
-Obj _3519328_37 = primSet(co, _3517703_37, Nil);
-R[1] = from;
-R[2] = to;
-R[3] = _3517703_37;
+Obj v_from = R[1];
+Obj v_to = R[2];
+Obj v__3519334_37 = primGenSym(co);
+Obj v__3517709_37 = v__3519334_37;
+Obj v__3519335_37 = primSet(co, v__3517709_37, Nil);
+R[1] = v_from;
+R[2] = v_to;
+R[3] = v__3517709_37;
 saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), _3517703_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3517709_37);
 return;
 }
 case 1:
 {
-Obj _3519335_37= co->res;
-Obj _3517705_37 = R[1];
+Obj v__3519342_37= co->res;
+Obj v__3517711_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), _3517705_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3517711_37);
 return;
 }
 case 2:
 {
-Obj _3519334_37= co->res;
-Obj _3517704_37 = R[1];
-Obj _3517705_37 = R[2];
-R[1] = _3517705_37;
+Obj v__3519341_37= co->res;
+Obj v__3517710_37 = R[1];
+Obj v__3517711_37 = R[2];
+R[1] = v__3517711_37;
 saveCont(co, clofun144, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), _3517705_37, _3517704_37, _3519334_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3517711_37, v__3517710_37, v__3519341_37);
 return;
 }
 case 3:
 {
-Obj _3519333_37= co->res;
-Obj _3517703_37 = R[1];
-Obj _3517704_37 = R[2];
-Obj _3517705_37 = _3519333_37;
-R[1] = _3517704_37;
-R[2] = _3517705_37;
+Obj v__3519340_37= co->res;
+Obj v__3517709_37 = R[1];
+Obj v__3517710_37 = R[2];
+Obj v__3517711_37 = v__3519340_37;
+R[1] = v__3517710_37;
+R[2] = v__3517711_37;
 saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517703_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517709_37);
 return;
 }
 case 4:
 {
-Obj _3519332_37= co->res;
-Obj to = R[1];
-Obj _3517703_37 = R[2];
-Obj _3517704_37 = _3519332_37;
-R[1] = _3517703_37;
-R[2] = _3517704_37;
+Obj v__3519339_37= co->res;
+Obj v_to = R[1];
+Obj v__3517709_37 = R[2];
+Obj v__3517710_37 = v__3519339_37;
+R[1] = v__3517709_37;
+R[2] = v__3517710_37;
 saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), to);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj _3519331_37= co->res;
-Obj _3519329_37 = R[1];
-Obj to = R[2];
-Obj _3517703_37 = R[3];
-R[1] = to;
-R[2] = _3517703_37;
+Obj v__3519338_37= co->res;
+Obj v__3519336_37 = R[1];
+Obj v_to = R[2];
+Obj v__3517709_37 = R[3];
+R[1] = v_to;
+R[2] = v__3517709_37;
 saveCont(co, clofun144, 4, R);
-coraCall1(co, _3519329_37, _3519331_37);
+coraCall1(co, v__3519336_37, v__3519338_37);
 return;
 }
 case 6:
 {
-Obj _3519330_37= co->res;
-Obj _3519329_37 = R[1];
-Obj to = R[2];
-Obj _3517703_37 = R[3];
-R[1] = _3519329_37;
-R[2] = to;
-R[3] = _3517703_37;
+Obj v__3519337_37= co->res;
+Obj v__3519336_37 = R[1];
+Obj v_to = R[2];
+Obj v__3517709_37 = R[3];
+R[1] = v__3519336_37;
+R[2] = v_to;
+R[3] = v__3517709_37;
 saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), _3519330_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519337_37);
 return;
 }
 case 7:
 {
-Obj _3519329_37= co->res;
-Obj from = R[1];
-Obj to = R[2];
-Obj _3517703_37 = R[3];
-R[1] = _3519329_37;
-R[2] = to;
-R[3] = _3517703_37;
+Obj v__3519336_37= co->res;
+Obj v_from = R[1];
+Obj v_to = R[2];
+Obj v__3517709_37 = R[3];
+R[1] = v__3519336_37;
+R[2] = v_to;
+R[3] = v__3517709_37;
 saveCont(co, clofun144, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), from);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
@@ -556,97 +556,97 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj file_45path = R[1];
+Obj v_file_45path = R[1];
 saveCont(co, clofun143, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), file_45path);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_45path);
 return;
 }
 case 1:
 {
-Obj _3519321_37= co->res;
-Obj _3517699_37 = R[1];
+Obj v__3519328_37= co->res;
+Obj v__3517705_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517705_37);
 return;
 }
 case 2:
 {
-Obj _3519320_37= co->res;
-Obj _3517699_37 = R[1];
-R[1] = _3517699_37;
+Obj v__3519327_37= co->res;
+Obj v__3517705_37 = R[1];
+R[1] = v__3517705_37;
 saveCont(co, clofun143, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517705_37);
 return;
 }
 case 3:
 {
-Obj _3519323_37= co->res;
-Obj _3517699_37 = R[1];
+Obj v__3519330_37= co->res;
+Obj v__3517705_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517705_37);
 return;
 }
 case 4:
 {
-Obj _3519322_37= co->res;
-Obj _3517699_37 = R[1];
-R[1] = _3517699_37;
+Obj v__3519329_37= co->res;
+Obj v__3517705_37 = R[1];
+R[1] = v__3517705_37;
 saveCont(co, clofun143, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517705_37);
 return;
 }
 case 5:
 {
-Obj _3519325_37= co->res;
-Obj _3517699_37 = R[1];
+Obj v__3519332_37= co->res;
+Obj v__3517705_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517705_37);
 return;
 }
 case 6:
 {
-Obj _3519324_37= co->res;
-Obj _3517699_37 = R[1];
-R[1] = _3517699_37;
+Obj v__3519331_37= co->res;
+Obj v__3517705_37 = R[1];
+R[1] = v__3517705_37;
 saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517705_37);
 return;
 }
 case 7:
 {
-Obj _3519317_37= co->res;
-Obj _3517702_37 = R[1];
-Obj _3517699_37 = R[2];
-if (True == _3519317_37) {
-Obj _3519318_37 = PRIM_CAR(_3517699_37);
-Obj _3519319_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519318_37);
-if (True == _3519319_37) {
-R[1] = _3517699_37;
+Obj v__3519324_37= co->res;
+Obj v__3517708_37 = R[1];
+Obj v__3517705_37 = R[2];
+if (True == v__3519324_37) {
+Obj v__3519325_37 = PRIM_CAR(v__3517705_37);
+Obj v__3519326_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519325_37);
+if (True == v__3519326_37) {
+R[1] = v__3517705_37;
 saveCont(co, clofun143, 2, R);
-coraCall1(co, _3517702_37, True);
+coraCall1(co, v__3517708_37, True);
 return;
 } else {
-R[1] = _3517699_37;
+R[1] = v__3517705_37;
 saveCont(co, clofun143, 4, R);
-coraCall1(co, _3517702_37, False);
+coraCall1(co, v__3517708_37, False);
 return;
 }
 } else {
-R[1] = _3517699_37;
+R[1] = v__3517705_37;
 saveCont(co, clofun143, 6, R);
-coraCall1(co, _3517702_37, False);
+coraCall1(co, v__3517708_37, False);
 return;
 }
 }
 case 8:
 {
-Obj _3519314_37= co->res;
-Obj _3517699_37 = _3519314_37;
-Obj _3517702_37 = makeNative(co->gc, 2, clofun142, 1, 1, _3517699_37);
-R[1] = _3517702_37;
-R[2] = _3517699_37;
+Obj v__3519321_37= co->res;
+Obj v__3517705_37 = v__3519321_37;
+Obj v__3517708_37 = makeNative(co->gc, 2, clofun142, 1, 1, v__3517705_37);
+R[1] = v__3517708_37;
+R[2] = v__3517705_37;
 saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3517699_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3517705_37);
 return;
 }
 }
@@ -656,14 +656,14 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517701_37 = R[1];
-if (True == _3517701_37) {
-Obj _3519315_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, _3519315_37);
+Obj v__3517707_37 = R[1];
+if (True == v__3517707_37) {
+Obj v__3519322_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v__3519322_37);
 return;
 } else {
-Obj _3519316_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, _3519316_37);
+Obj v__3519323_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v__3519323_37);
 return;
 }
 }
@@ -674,27 +674,27 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517436_37 = R[1];
-Obj _3517695_37 = makeNative(co->gc, 1, clofun138, 0, 1, _3517436_37);
-Obj _3519307_37 = PRIM_ISCONS(_3517436_37);
-if (True == _3519307_37) {
-Obj _3519308_37 = PRIM_CAR(_3517436_37);
-Obj _3519309_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519308_37);
-if (True == _3519309_37) {
-Obj _3519310_37 = PRIM_CDR(_3517436_37);
-Obj _3517698_37 = _3519310_37;
-Obj _3519311_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3517698_37);
+Obj v__3517442_37 = R[1];
+Obj v__3517701_37 = makeNative(co->gc, 1, clofun138, 0, 1, v__3517442_37);
+Obj v__3519314_37 = PRIM_ISCONS(v__3517442_37);
+if (True == v__3519314_37) {
+Obj v__3519315_37 = PRIM_CAR(v__3517442_37);
+Obj v__3519316_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519315_37);
+if (True == v__3519316_37) {
+Obj v__3519317_37 = PRIM_CDR(v__3517442_37);
+Obj v__3517704_37 = v__3519317_37;
+Obj v__3519318_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3517704_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519311_37, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519318_37, makeNative(co->gc, 2, clofun140, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517695_37);
+coraCall0(co, v__3517701_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517695_37);
+coraCall0(co, v__3517701_37);
 return;
 }
 }
@@ -705,9 +705,9 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
 return;
 }
 }
@@ -717,10 +717,10 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 }
@@ -730,26 +730,26 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517696_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
-Obj _3519302_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519302_37) {
-Obj _3519303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519304_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519303_37);
-if (True == _3519304_37) {
-Obj _3519305_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517697_37 = _3519305_37;
-Obj _3519306_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517697_37);
+Obj v__3517702_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
+Obj v__3519309_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519309_37) {
+Obj v__3519310_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519311_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519310_37);
+if (True == v__3519311_37) {
+Obj v__3519312_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517703_37 = v__3519312_37;
+Obj v__3519313_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517703_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3519306_37, makeNative(co->gc, 2, clofun137, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519313_37, makeNative(co->gc, 2, clofun137, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, v__3517702_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517696_37);
+coraCall0(co, v__3517702_37);
 return;
 }
 }
@@ -760,9 +760,9 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body = R[1];
+Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
@@ -772,10 +772,10 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 }
@@ -785,9 +785,9 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3519299_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3519306_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3519299_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519306_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
 return;
 }
 }
@@ -797,17 +797,17 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj _3519300_37= co->res;
-Obj _3519301_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519300_37);
-coraReturn(co, _3519301_37);
+Obj v__3519307_37= co->res;
+Obj v__3519308_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519307_37);
+coraReturn(co, v__3519308_37);
 return;
 }
 }
@@ -817,14 +817,14 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj type = R[1];
-Obj code = R[2];
+Obj v_type = R[1];
+Obj v_code = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), type, code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_type, v_code);
 return;
 } else {
-coraReturn(co, code);
+coraReturn(co, v_code);
 return;
 }
 }
@@ -835,50 +835,50 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517429_37 = R[1];
-Obj _3517430_37 = R[2];
-Obj _3517684_37 = makeNative(co->gc, 2, clofun131, 0, 2, _3517429_37, _3517430_37);
-Obj _3519285_37 = PRIM_ISCONS(_3517429_37);
-if (True == _3519285_37) {
-Obj _3519286_37 = PRIM_CAR(_3517429_37);
-Obj _3519287_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519286_37);
-if (True == _3519287_37) {
-Obj _3519288_37 = PRIM_CDR(_3517429_37);
-Obj _3519289_37 = PRIM_ISCONS(_3519288_37);
-if (True == _3519289_37) {
-Obj _3519290_37 = PRIM_CDR(_3517429_37);
-Obj _3519291_37 = PRIM_CAR(_3519290_37);
-Obj _3517693_37 = _3519291_37;
-Obj _3519292_37 = PRIM_CDR(_3517429_37);
-Obj _3519293_37 = PRIM_CDR(_3519292_37);
-Obj _3517694_37 = _3519293_37;
-R[1] = _3517693_37;
+Obj v__3517435_37 = R[1];
+Obj v__3517436_37 = R[2];
+Obj v__3517690_37 = makeNative(co->gc, 2, clofun131, 0, 2, v__3517435_37, v__3517436_37);
+Obj v__3519292_37 = PRIM_ISCONS(v__3517435_37);
+if (True == v__3519292_37) {
+Obj v__3519293_37 = PRIM_CAR(v__3517435_37);
+Obj v__3519294_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519293_37);
+if (True == v__3519294_37) {
+Obj v__3519295_37 = PRIM_CDR(v__3517435_37);
+Obj v__3519296_37 = PRIM_ISCONS(v__3519295_37);
+if (True == v__3519296_37) {
+Obj v__3519297_37 = PRIM_CDR(v__3517435_37);
+Obj v__3519298_37 = PRIM_CAR(v__3519297_37);
+Obj v__3517699_37 = v__3519298_37;
+Obj v__3519299_37 = PRIM_CDR(v__3517435_37);
+Obj v__3519300_37 = PRIM_CDR(v__3519299_37);
+Obj v__3517700_37 = v__3519300_37;
+R[1] = v__3517699_37;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517694_37, _3517430_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517700_37, v__3517436_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517684_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519294_37= co->res;
-Obj _3517693_37 = R[1];
-Obj _3519295_37 = makeCons(co->gc, _3517693_37, _3519294_37);
-Obj _3519296_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, _3519295_37);
-coraReturn(co, _3519296_37);
+Obj v__3519301_37= co->res;
+Obj v__3517699_37 = R[1];
+Obj v__3519302_37 = makeCons(co->gc, v__3517699_37, v__3519301_37);
+Obj v__3519303_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3519302_37);
+coraReturn(co, v__3519303_37);
 return;
 }
 }
@@ -888,69 +888,69 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517685_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3519264_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519264_37) {
-Obj _3519265_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519266_37 = PRIM_ISCONS(_3519265_37);
-if (True == _3519266_37) {
-Obj _3519267_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519268_37 = PRIM_CAR(_3519267_37);
-Obj _3519269_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519268_37);
-if (True == _3519269_37) {
-Obj _3519270_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519271_37 = PRIM_CDR(_3519270_37);
-Obj _3519272_37 = PRIM_ISCONS(_3519271_37);
-if (True == _3519272_37) {
-Obj _3519273_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519274_37 = PRIM_CDR(_3519273_37);
-Obj _3519275_37 = PRIM_CAR(_3519274_37);
-Obj _3517691_37 = _3519275_37;
-Obj _3519276_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519277_37 = PRIM_CDR(_3519276_37);
-Obj _3519278_37 = PRIM_CDR(_3519277_37);
-Obj _3519279_37 = PRIM_EQ(Nil, _3519278_37);
-if (True == _3519279_37) {
-Obj _3519280_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517692_37 = _3519280_37;
-Obj _3519281_37 = makeCons(co->gc, _3517691_37, Nil);
-Obj _3519282_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, _3519281_37);
-R[1] = _3519282_37;
+Obj v__3517691_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519271_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519271_37) {
+Obj v__3519272_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519273_37 = PRIM_ISCONS(v__3519272_37);
+if (True == v__3519273_37) {
+Obj v__3519274_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519275_37 = PRIM_CAR(v__3519274_37);
+Obj v__3519276_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519275_37);
+if (True == v__3519276_37) {
+Obj v__3519277_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519278_37 = PRIM_CDR(v__3519277_37);
+Obj v__3519279_37 = PRIM_ISCONS(v__3519278_37);
+if (True == v__3519279_37) {
+Obj v__3519280_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519281_37 = PRIM_CDR(v__3519280_37);
+Obj v__3519282_37 = PRIM_CAR(v__3519281_37);
+Obj v__3517697_37 = v__3519282_37;
+Obj v__3519283_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519284_37 = PRIM_CDR(v__3519283_37);
+Obj v__3519285_37 = PRIM_CDR(v__3519284_37);
+Obj v__3519286_37 = PRIM_EQ(Nil, v__3519285_37);
+if (True == v__3519286_37) {
+Obj v__3519287_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517698_37 = v__3519287_37;
+Obj v__3519288_37 = makeCons(co->gc, v__3517697_37, Nil);
+Obj v__3519289_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519288_37);
+R[1] = v__3519289_37;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517692_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517698_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517685_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517685_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517685_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517685_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517685_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519283_37= co->res;
-Obj _3519282_37 = R[1];
-Obj _3519284_37 = makeCons(co->gc, _3519282_37, _3519283_37);
-coraReturn(co, _3519284_37);
+Obj v__3519290_37= co->res;
+Obj v__3519289_37 = R[1];
+Obj v__3519291_37 = makeCons(co->gc, v__3519289_37, v__3519290_37);
+coraReturn(co, v__3519291_37);
 return;
 }
 }
@@ -960,48 +960,48 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517686_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3519252_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519252_37) {
-Obj _3519253_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519254_37 = PRIM_ISCONS(_3519253_37);
-if (True == _3519254_37) {
-Obj _3519255_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519256_37 = PRIM_CAR(_3519255_37);
-Obj _3519257_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519256_37);
-if (True == _3519257_37) {
-Obj _3519258_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519259_37 = PRIM_CDR(_3519258_37);
-Obj _3517689_37 = _3519259_37;
-Obj _3519260_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517690_37 = _3519260_37;
-Obj _3519261_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, _3517689_37);
-R[1] = _3519261_37;
+Obj v__3517692_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519259_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519259_37) {
+Obj v__3519260_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519261_37 = PRIM_ISCONS(v__3519260_37);
+if (True == v__3519261_37) {
+Obj v__3519262_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519263_37 = PRIM_CAR(v__3519262_37);
+Obj v__3519264_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519263_37);
+if (True == v__3519264_37) {
+Obj v__3519265_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519266_37 = PRIM_CDR(v__3519265_37);
+Obj v__3517695_37 = v__3519266_37;
+Obj v__3519267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517696_37 = v__3519267_37;
+Obj v__3519268_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517695_37);
+R[1] = v__3519268_37;
 saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517690_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517696_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517686_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517686_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517686_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519262_37= co->res;
-Obj _3519261_37 = R[1];
-Obj _3519263_37 = makeCons(co->gc, _3519261_37, _3519262_37);
-coraReturn(co, _3519263_37);
+Obj v__3519269_37= co->res;
+Obj v__3519268_37 = R[1];
+Obj v__3519270_37 = makeCons(co->gc, v__3519268_37, v__3519269_37);
+coraReturn(co, v__3519270_37);
 return;
 }
 }
@@ -1011,33 +1011,33 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517687_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj _3519246_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519246_37) {
-Obj _3519247_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519248_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519247_37);
-if (True == _3519248_37) {
-Obj _3519249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517688_37 = _3519249_37;
+Obj v__3517693_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3519253_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519253_37) {
+Obj v__3519254_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519255_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519254_37);
+if (True == v__3519255_37) {
+Obj v__3519256_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517694_37 = v__3519256_37;
 saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), _3517688_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517694_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517687_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517687_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519250_37= co->res;
-Obj _3519251_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3519250_37);
-coraReturn(co, _3519251_37);
+Obj v__3519257_37= co->res;
+Obj v__3519258_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519257_37);
+coraReturn(co, v__3519258_37);
 return;
 }
 }
@@ -1058,73 +1058,73 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517421_37 = R[1];
-Obj _3517422_37 = R[2];
-Obj _3517423_37 = R[3];
-Obj _3517424_37 = R[4];
-Obj _3519207_37 = PRIM_EQ(Nil, _3517421_37);
-if (True == _3519207_37) {
-R[1] = _3517423_37;
-R[2] = _3517424_37;
+Obj v__3517427_37 = R[1];
+Obj v__3517428_37 = R[2];
+Obj v__3517429_37 = R[3];
+Obj v__3517430_37 = R[4];
+Obj v__3519214_37 = PRIM_EQ(Nil, v__3517427_37);
+if (True == v__3519214_37) {
+R[1] = v__3517429_37;
+R[2] = v__3517430_37;
 saveCont(co, clofun127, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517422_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517428_37);
 return;
 } else {
-Obj _3517676_37 = makeNative(co->gc, 1, clofun126, 0, 4, _3517421_37, _3517422_37, _3517423_37, _3517424_37);
-Obj _3519234_37 = PRIM_ISCONS(_3517421_37);
-if (True == _3519234_37) {
-Obj _3519235_37 = PRIM_CAR(_3517421_37);
-Obj _3519236_37 = PRIM_ISCONS(_3519235_37);
-if (True == _3519236_37) {
-Obj _3519237_37 = PRIM_CAR(_3517421_37);
-Obj _3519238_37 = PRIM_CAR(_3519237_37);
-Obj _3519239_37 = PRIM_EQ(getBinding(co, packageID, 10).name, _3519238_37);
-if (True == _3519239_37) {
-Obj _3519240_37 = PRIM_CAR(_3517421_37);
-Obj _3519241_37 = PRIM_CDR(_3519240_37);
-Obj _3517682_37 = _3519241_37;
-Obj _3519242_37 = PRIM_CDR(_3517421_37);
-Obj _3517683_37 = _3519242_37;
-Obj _3519243_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, _3517682_37);
-Obj _3519244_37 = makeCons(co->gc, _3519243_37, _3517422_37);
+Obj v__3517682_37 = makeNative(co->gc, 1, clofun126, 0, 4, v__3517427_37, v__3517428_37, v__3517429_37, v__3517430_37);
+Obj v__3519241_37 = PRIM_ISCONS(v__3517427_37);
+if (True == v__3519241_37) {
+Obj v__3519242_37 = PRIM_CAR(v__3517427_37);
+Obj v__3519243_37 = PRIM_ISCONS(v__3519242_37);
+if (True == v__3519243_37) {
+Obj v__3519244_37 = PRIM_CAR(v__3517427_37);
+Obj v__3519245_37 = PRIM_CAR(v__3519244_37);
+Obj v__3519246_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3519245_37);
+if (True == v__3519246_37) {
+Obj v__3519247_37 = PRIM_CAR(v__3517427_37);
+Obj v__3519248_37 = PRIM_CDR(v__3519247_37);
+Obj v__3517688_37 = v__3519248_37;
+Obj v__3519249_37 = PRIM_CDR(v__3517427_37);
+Obj v__3517689_37 = v__3519249_37;
+Obj v__3519250_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517688_37);
+Obj v__3519251_37 = makeCons(co->gc, v__3519250_37, v__3517428_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517683_37, _3519244_37, _3517423_37, _3517424_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517689_37, v__3519251_37, v__3517429_37, v__3517430_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517676_37);
+coraCall0(co, v__3517682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517676_37);
+coraCall0(co, v__3517682_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517676_37);
+coraCall0(co, v__3517682_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3519209_37= co->res;
-Obj _3517424_37 = R[1];
-Obj _3519208_37 = R[2];
+Obj v__3519216_37= co->res;
+Obj v__3517430_37 = R[1];
+Obj v__3519215_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3517424_37, _3519208_37, _3519209_37);
+coraCall2(co, v__3517430_37, v__3519215_37, v__3519216_37);
 return;
 }
 case 2:
 {
-Obj _3519208_37= co->res;
-Obj _3517423_37 = R[1];
-Obj _3517424_37 = R[2];
-R[1] = _3517424_37;
-R[2] = _3519208_37;
+Obj v__3519215_37= co->res;
+Obj v__3517429_37 = R[1];
+Obj v__3517430_37 = R[2];
+R[1] = v__3517430_37;
+R[2] = v__3519215_37;
 saveCont(co, clofun127, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517423_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517429_37);
 return;
 }
 }
@@ -1134,39 +1134,39 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517677_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj _3519223_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519223_37) {
-Obj _3519224_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519225_37 = PRIM_ISCONS(_3519224_37);
-if (True == _3519225_37) {
-Obj _3519226_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519227_37 = PRIM_CAR(_3519226_37);
-Obj _3519228_37 = PRIM_EQ(getBinding(co, packageID, 12).name, _3519227_37);
-if (True == _3519228_37) {
-Obj _3519229_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519230_37 = PRIM_CDR(_3519229_37);
-Obj _3517680_37 = _3519230_37;
-Obj _3519231_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517681_37 = _3519231_37;
-Obj _3519232_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, _3517680_37);
-Obj _3519233_37 = makeCons(co->gc, _3519232_37, closureRef(R[0], 1));
+Obj v__3517683_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3519230_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519230_37) {
+Obj v__3519231_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519232_37 = PRIM_ISCONS(v__3519231_37);
+if (True == v__3519232_37) {
+Obj v__3519233_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519234_37 = PRIM_CAR(v__3519233_37);
+Obj v__3519235_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3519234_37);
+if (True == v__3519235_37) {
+Obj v__3519236_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519237_37 = PRIM_CDR(v__3519236_37);
+Obj v__3517686_37 = v__3519237_37;
+Obj v__3519238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517687_37 = v__3519238_37;
+Obj v__3519239_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3517686_37);
+Obj v__3519240_37 = makeCons(co->gc, v__3519239_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517681_37, _3519233_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517687_37, v__3519240_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517677_37);
+coraCall0(co, v__3517683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517677_37);
+coraCall0(co, v__3517683_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517677_37);
+coraCall0(co, v__3517683_37);
 return;
 }
 }
@@ -1177,24 +1177,24 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3519210_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519210_37) {
-Obj _3519211_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517678_37 = _3519211_37;
-Obj _3519212_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517679_37 = _3519212_37;
-Obj _3519213_37 = makeCons(co->gc, _3517678_37, Nil);
-Obj _3519214_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, _3519213_37);
-Obj _3519215_37 = makeCons(co->gc, _3519214_37, Nil);
-Obj _3519216_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, _3519215_37);
-Obj _3519217_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj _3519218_37 = makeCons(co->gc, _3519217_37, Nil);
-Obj _3519219_37 = makeCons(co->gc, _3519216_37, _3519218_37);
-Obj _3519220_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, _3519219_37);
-Obj _3519221_37 = makeCons(co->gc, _3519220_37, closureRef(R[0], 1));
-Obj _3519222_37 = makeCons(co->gc, _3517678_37, closureRef(R[0], 2));
+Obj v__3519217_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519217_37) {
+Obj v__3519218_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517684_37 = v__3519218_37;
+Obj v__3519219_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517685_37 = v__3519219_37;
+Obj v__3519220_37 = makeCons(co->gc, v__3517684_37, Nil);
+Obj v__3519221_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3519220_37);
+Obj v__3519222_37 = makeCons(co->gc, v__3519221_37, Nil);
+Obj v__3519223_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519222_37);
+Obj v__3519224_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v__3519225_37 = makeCons(co->gc, v__3519224_37, Nil);
+Obj v__3519226_37 = makeCons(co->gc, v__3519223_37, v__3519225_37);
+Obj v__3519227_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519226_37);
+Obj v__3519228_37 = makeCons(co->gc, v__3519227_37, closureRef(R[0], 1));
+Obj v__3519229_37 = makeCons(co->gc, v__3517684_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), _3517679_37, _3519221_37, _3519222_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517685_37, v__3519228_37, v__3519229_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1209,37 +1209,37 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517415_37 = R[1];
-Obj _3517667_37 = makeNative(co->gc, 1, clofun123, 0, 1, _3517415_37);
-Obj _3519197_37 = PRIM_ISCONS(_3517415_37);
-if (True == _3519197_37) {
-Obj _3519198_37 = PRIM_CAR(_3517415_37);
-Obj _3519199_37 = PRIM_EQ(getBinding(co, packageID, 18).name, _3519198_37);
-if (True == _3519199_37) {
-Obj _3519200_37 = PRIM_CDR(_3517415_37);
-Obj _3519201_37 = PRIM_ISCONS(_3519200_37);
-if (True == _3519201_37) {
-Obj _3519202_37 = PRIM_CDR(_3517415_37);
-Obj _3519203_37 = PRIM_CAR(_3519202_37);
-Obj _3519204_37 = PRIM_CDR(_3517415_37);
-Obj _3519205_37 = PRIM_CDR(_3519204_37);
-Obj _3517675_37 = _3519205_37;
+Obj v__3517421_37 = R[1];
+Obj v__3517673_37 = makeNative(co->gc, 1, clofun123, 0, 1, v__3517421_37);
+Obj v__3519204_37 = PRIM_ISCONS(v__3517421_37);
+if (True == v__3519204_37) {
+Obj v__3519205_37 = PRIM_CAR(v__3517421_37);
+Obj v__3519206_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519205_37);
+if (True == v__3519206_37) {
+Obj v__3519207_37 = PRIM_CDR(v__3517421_37);
+Obj v__3519208_37 = PRIM_ISCONS(v__3519207_37);
+if (True == v__3519208_37) {
+Obj v__3519209_37 = PRIM_CDR(v__3517421_37);
+Obj v__3519210_37 = PRIM_CAR(v__3519209_37);
+Obj v__3519211_37 = PRIM_CDR(v__3517421_37);
+Obj v__3519212_37 = PRIM_CDR(v__3519211_37);
+Obj v__3517681_37 = v__3519212_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517675_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517681_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517667_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517667_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517667_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 }
@@ -1250,25 +1250,25 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517668_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
-Obj _3519193_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519193_37) {
-Obj _3519194_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519195_37 = PRIM_EQ(getBinding(co, packageID, 19).name, _3519194_37);
-if (True == _3519195_37) {
-Obj _3519196_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517674_37 = _3519196_37;
+Obj v__3517674_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
+Obj v__3519200_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519200_37) {
+Obj v__3519201_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519202_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519201_37);
+if (True == v__3519202_37) {
+Obj v__3519203_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517680_37 = v__3519203_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517674_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517680_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517668_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517668_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 }
@@ -1279,36 +1279,36 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517669_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
-Obj _3519184_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519184_37) {
-Obj _3519185_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519186_37 = PRIM_ISCONS(_3519185_37);
-if (True == _3519186_37) {
-Obj _3519187_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519188_37 = PRIM_CAR(_3519187_37);
-Obj _3519189_37 = PRIM_EQ(getBinding(co, packageID, 20).name, _3519188_37);
-if (True == _3519189_37) {
-Obj _3519190_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519191_37 = PRIM_CDR(_3519190_37);
-Obj _3519192_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517673_37 = _3519192_37;
+Obj v__3517675_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
+Obj v__3519191_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519191_37) {
+Obj v__3519192_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519193_37 = PRIM_ISCONS(v__3519192_37);
+if (True == v__3519193_37) {
+Obj v__3519194_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519195_37 = PRIM_CAR(v__3519194_37);
+Obj v__3519196_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519195_37);
+if (True == v__3519196_37) {
+Obj v__3519197_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519198_37 = PRIM_CDR(v__3519197_37);
+Obj v__3519199_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517679_37 = v__3519199_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517673_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517679_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517669_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517669_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517669_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 }
@@ -1319,67 +1319,67 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517670_37 = makeNative(co->gc, 1, clofun120, 0, 0);
-Obj _3519166_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3519166_37) {
-Obj _3519167_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519168_37 = PRIM_ISCONS(_3519167_37);
-if (True == _3519168_37) {
-Obj _3519169_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519170_37 = PRIM_CAR(_3519169_37);
-Obj _3519171_37 = PRIM_EQ(getBinding(co, packageID, 21).name, _3519170_37);
-if (True == _3519171_37) {
-Obj _3519172_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519173_37 = PRIM_CDR(_3519172_37);
-Obj _3519174_37 = PRIM_ISCONS(_3519173_37);
-if (True == _3519174_37) {
-Obj _3519175_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519176_37 = PRIM_CDR(_3519175_37);
-Obj _3519177_37 = PRIM_CAR(_3519176_37);
-Obj _3517671_37 = _3519177_37;
-Obj _3519178_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3519179_37 = PRIM_CDR(_3519178_37);
-Obj _3519180_37 = PRIM_CDR(_3519179_37);
-Obj _3519181_37 = PRIM_EQ(Nil, _3519180_37);
-if (True == _3519181_37) {
-Obj _3519182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517672_37 = _3519182_37;
-R[1] = _3517672_37;
+Obj v__3517676_37 = makeNative(co->gc, 1, clofun120, 0, 0);
+Obj v__3519173_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519173_37) {
+Obj v__3519174_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519175_37 = PRIM_ISCONS(v__3519174_37);
+if (True == v__3519175_37) {
+Obj v__3519176_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519177_37 = PRIM_CAR(v__3519176_37);
+Obj v__3519178_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519177_37);
+if (True == v__3519178_37) {
+Obj v__3519179_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519180_37 = PRIM_CDR(v__3519179_37);
+Obj v__3519181_37 = PRIM_ISCONS(v__3519180_37);
+if (True == v__3519181_37) {
+Obj v__3519182_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519183_37 = PRIM_CDR(v__3519182_37);
+Obj v__3519184_37 = PRIM_CAR(v__3519183_37);
+Obj v__3517677_37 = v__3519184_37;
+Obj v__3519185_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519186_37 = PRIM_CDR(v__3519185_37);
+Obj v__3519187_37 = PRIM_CDR(v__3519186_37);
+Obj v__3519188_37 = PRIM_EQ(Nil, v__3519187_37);
+if (True == v__3519188_37) {
+Obj v__3519189_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517678_37 = v__3519189_37;
+R[1] = v__3517678_37;
 saveCont(co, clofun121, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), _3517671_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3517677_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517670_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517670_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517670_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517670_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517670_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519183_37= co->res;
-Obj _3517672_37 = R[1];
+Obj v__3519190_37= co->res;
+Obj v__3517678_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), _3517672_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517678_37);
 return;
 }
 }
@@ -1399,118 +1399,118 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj bc = R[2];
-Obj globals = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v_to = R[1];
+Obj v_bc = R[2];
+Obj v_globals = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj _3519164_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
+Obj v__3519171_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 2, to, globals), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj _3519163_37= co->res;
-Obj _3519161_37 = R[1];
-Obj to = R[2];
-Obj globals = R[3];
-Obj bc = R[4];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v__3519170_37= co->res;
+Obj v__3519168_37 = R[1];
+Obj v_to = R[2];
+Obj v_globals = R[3];
+Obj v_bc = R[4];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), to, globals, _3519161_37, _3519163_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v__3519168_37, v__3519170_37);
 return;
 }
 case 3:
 {
-Obj _3519161_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-Obj _3519162_37 = PRIM_CAR(bc);
-R[1] = _3519161_37;
-R[2] = to;
-R[3] = globals;
-R[4] = bc;
+Obj v__3519168_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+Obj v__3519169_37 = PRIM_CAR(v_bc);
+R[1] = v__3519168_37;
+R[2] = v_to;
+R[3] = v_globals;
+R[4] = v_bc;
 saveCont(co, clofun119, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3519162_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519169_37);
 return;
 }
 case 4:
 {
-Obj _3519160_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v__3519167_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_bc);
 return;
 }
 case 5:
 {
-Obj _3519159_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v__3519166_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj _3519156_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v__3519163_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, to), bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, v_to), v_bc);
 return;
 }
 case 7:
 {
-Obj _3519155_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v__3519162_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 8:
 {
-Obj _3519154_37= co->res;
-Obj to = R[1];
-Obj globals = R[2];
-Obj bc = R[3];
-R[1] = to;
-R[2] = globals;
-R[3] = bc;
+Obj v__3519161_37= co->res;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_bc = R[3];
+R[1] = v_to;
+R[2] = v_globals;
+R[3] = v_bc;
 saveCont(co, clofun119, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1520,9 +1520,9 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
+Obj v_group = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
 return;
 }
 }
@@ -1532,15 +1532,15 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj group = R[1];
-Obj _3519157_37 = PRIM_CAR(group);
+Obj v_group = R[1];
+Obj v__3519164_37 = PRIM_CAR(v_group);
 saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), _3519157_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3519164_37);
 return;
 }
 case 1:
 {
-Obj _3519158_37= co->res;
+Obj v__3519165_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1552,203 +1552,203 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj globals = R[2];
-Obj label = R[3];
-Obj lam = R[4];
-R[1] = globals;
-R[2] = lam;
-R[3] = label;
-R[4] = to;
+Obj v_to = R[1];
+Obj v_globals = R[2];
+Obj v_label = R[3];
+Obj v_lam = R[4];
+R[1] = v_globals;
+R[2] = v_lam;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun116, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj _3519152_37= co->res;
-Obj to = R[1];
+Obj v__3519159_37= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3519151_37= co->res;
-Obj to = R[1];
-R[1] = to;
+Obj v__3519158_37= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3519150_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = to;
+Obj v__3519157_37= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_to;
 saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), to, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj _3519149_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj v__3519156_37= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun116, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj _3519148_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj v__3519155_37= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun116, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj _3519147_37= co->res;
-Obj label = R[1];
-Obj to = R[2];
-R[1] = label;
-R[2] = to;
+Obj v__3519154_37= co->res;
+Obj v_label = R[1];
+Obj v_to = R[2];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun116, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3519147_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519154_37);
 return;
 }
 case 7:
 {
-Obj _3519146_37= co->res;
-Obj lam = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = label;
-R[2] = to;
+Obj v__3519153_37= co->res;
+Obj v_lam = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_label;
+R[2] = v_to;
 saveCont(co, clofun116, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_lam);
 return;
 }
 case 8:
 {
-Obj _3519145_37= co->res;
-Obj lam = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = lam;
-R[2] = label;
-R[3] = to;
+Obj v__3519152_37= co->res;
+Obj v_lam = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_lam;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun116, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "stackAlloc(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj _3519144_37= co->res;
-Obj lam = R[1];
-Obj label = R[2];
-Obj to = R[3];
-R[1] = lam;
-R[2] = label;
-R[3] = to;
+Obj v__3519151_37= co->res;
+Obj v_lam = R[1];
+Obj v_label = R[2];
+Obj v_to = R[3];
+R[1] = v_lam;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun116, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj _3519136_37= co->res;
-Obj globals = R[1];
-Obj lam = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = lam;
-R[2] = label;
-R[3] = to;
+Obj v__3519142_37= co->res;
+Obj v_globals = R[1];
+Obj v_lam = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_lam;
+R[2] = v_label;
+R[3] = v_to;
 saveCont(co, clofun116, 9, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, to), MAKE_NUMBER(0), globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 11:
 {
-Obj _3519135_37= co->res;
-Obj globals = R[1];
-Obj lam = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = lam;
-R[3] = label;
-R[4] = to;
+Obj v__3519141_37= co->res;
+Obj v_globals = R[1];
+Obj v_lam = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_lam;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun116, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3519134_37= co->res;
-Obj globals = R[1];
-Obj lam = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = lam;
-R[3] = label;
-R[4] = to;
+Obj v__3519140_37= co->res;
+Obj v_globals = R[1];
+Obj v_lam = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_lam;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun116, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), to, _3519134_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519140_37);
 return;
 }
 case 13:
 {
-Obj _3519133_37= co->res;
-Obj globals = R[1];
-Obj lam = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = lam;
-R[3] = label;
-R[4] = to;
+Obj v__3519139_37= co->res;
+Obj v_globals = R[1];
+Obj v_lam = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_lam;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun116, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_globals);
 return;
 }
 case 14:
 {
-Obj _3519132_37= co->res;
-Obj globals = R[1];
-Obj lam = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = lam;
-R[3] = label;
-R[4] = to;
+Obj v__3519138_37= co->res;
+Obj v_globals = R[1];
+Obj v_lam = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_lam;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun116, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 15:
 {
-Obj _3519131_37= co->res;
-Obj globals = R[1];
-Obj lam = R[2];
-Obj label = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = lam;
-R[3] = label;
-R[4] = to;
+Obj v__3519137_37= co->res;
+Obj v_globals = R[1];
+Obj v_lam = R[2];
+Obj v_label = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v_lam;
+R[3] = v_label;
+R[4] = v_to;
 saveCont(co, clofun116, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1758,70 +1758,79 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj sym = R[2];
-R[1] = sym;
-R[2] = acc;
-saveCont(co, clofun115, 6, R);
+Obj v_acc = R[1];
+Obj v_sym = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun115, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj _3519142_37= co->res;
-Obj acc = R[1];
-Obj _3519143_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3519143_37);
+Obj v__3519149_37= co->res;
+Obj v_acc = R[1];
+Obj v__3519150_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519150_37);
 return;
 }
 case 2:
 {
-Obj _3519141_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3519148_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj _3519140_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3519147_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), _3519140_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3519147_37);
 return;
 }
 case 4:
 {
-Obj _3519139_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v__3519146_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3519146_37);
 return;
 }
 case 5:
 {
-Obj _3519138_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
+Obj v__3519145_37= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v_sym);
 return;
 }
 case 6:
 {
-Obj _3519137_37= co->res;
-Obj sym = R[1];
-Obj acc = R[2];
-R[1] = sym;
-R[2] = acc;
+Obj v__3519144_37= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
 saveCont(co, clofun115, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
+return;
+}
+case 7:
+{
+Obj v__3519143_37= co->res;
+Obj v_sym = R[1];
+Obj v_acc = R[2];
+R[1] = v_sym;
+R[2] = v_acc;
+saveCont(co, clofun115, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
@@ -1831,221 +1840,221 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj to = R[1];
-Obj group = R[2];
-Obj globals = R[3];
-Obj _3519109_37 = PRIM_CAR(group);
-Obj _3517663_37 = _3519109_37;
-R[1] = globals;
-R[2] = _3517663_37;
-R[3] = to;
+Obj v_to = R[1];
+Obj v_group = R[2];
+Obj v_globals = R[3];
+Obj v__3519115_37 = PRIM_CAR(v_group);
+Obj v__3517669_37 = v__3519115_37;
+R[1] = v_globals;
+R[2] = v__3517669_37;
+R[3] = v_to;
 saveCont(co, clofun114, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_group);
 return;
 }
 case 1:
 {
-Obj _3519129_37= co->res;
-Obj to = R[1];
+Obj v__3519135_37= co->res;
+Obj v_to = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj _3519128_37= co->res;
-Obj to = R[1];
-R[1] = to;
+Obj v__3519134_37= co->res;
+Obj v_to = R[1];
+R[1] = v_to;
 saveCont(co, clofun114, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3519127_37= co->res;
-Obj globals = R[1];
-Obj _3517663_37 = R[2];
-Obj _3517664_37 = R[3];
-Obj to = R[4];
-R[1] = to;
+Obj v__3519133_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517669_37 = R[2];
+Obj v__3517670_37 = R[3];
+Obj v_to = R[4];
+R[1] = v_to;
 saveCont(co, clofun114, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, globals, _3517663_37, _3517664_37, to), MAKE_NUMBER(1), _3519127_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, v_globals, v__3517669_37, v__3517670_37, v_to), MAKE_NUMBER(1), v__3519133_37);
 return;
 }
 case 4:
 {
-Obj _3519119_37= co->res;
-Obj globals = R[1];
-Obj _3517663_37 = R[2];
-Obj _3517664_37 = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = _3517663_37;
-R[3] = _3517664_37;
-R[4] = to;
+Obj v__3519125_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517669_37 = R[2];
+Obj v__3517670_37 = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v__3517669_37;
+R[3] = v__3517670_37;
+R[4] = v_to;
 saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), _3517664_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517670_37);
 return;
 }
 case 5:
 {
-Obj _3519118_37= co->res;
-Obj globals = R[1];
-Obj _3517663_37 = R[2];
-Obj _3517664_37 = R[3];
-Obj to = R[4];
-R[1] = globals;
-R[2] = _3517663_37;
-R[3] = _3517664_37;
-R[4] = to;
+Obj v__3519124_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517669_37 = R[2];
+Obj v__3517670_37 = R[3];
+Obj v_to = R[4];
+R[1] = v_globals;
+R[2] = v__3517669_37;
+R[3] = v__3517670_37;
+R[4] = v_to;
 saveCont(co, clofun114, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj _3519117_37= co->res;
-Obj _3517665_37 = R[1];
-Obj _3517666_37 = R[2];
-Obj globals = R[3];
-Obj _3517663_37 = R[4];
-Obj _3517664_37 = R[5];
-Obj to = R[6];
-R[1] = globals;
-R[2] = _3517663_37;
-R[3] = _3517664_37;
-R[4] = to;
+Obj v__3519123_37= co->res;
+Obj v__3517671_37 = R[1];
+Obj v__3517672_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517669_37 = R[4];
+Obj v__3517670_37 = R[5];
+Obj v_to = R[6];
+R[1] = v_globals;
+R[2] = v__3517669_37;
+R[3] = v__3517670_37;
+R[4] = v_to;
 saveCont(co, clofun114, 5, R);
-Obj __args[5] = {globals, _3517663_37, _3517665_37, to, _3517666_37};
+Obj __args[5] = {v_globals, v__3517669_37, v__3517671_37, v_to, v__3517672_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3519116_37= co->res;
-Obj _3517665_37 = R[1];
-Obj _3517666_37 = R[2];
-Obj globals = R[3];
-Obj _3517663_37 = R[4];
-Obj _3517664_37 = R[5];
-Obj to = R[6];
-R[1] = _3517665_37;
-R[2] = _3517666_37;
-R[3] = globals;
-R[4] = _3517663_37;
-R[5] = _3517664_37;
-R[6] = to;
+Obj v__3519122_37= co->res;
+Obj v__3517671_37 = R[1];
+Obj v__3517672_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517669_37 = R[4];
+Obj v__3517670_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517671_37;
+R[2] = v__3517672_37;
+R[3] = v_globals;
+R[4] = v__3517669_37;
+R[5] = v__3517670_37;
+R[6] = v_to;
 saveCont(co, clofun114, 6, R);
-Obj __args[5] = {globals, _3517663_37, Nil, to, _3517665_37};
+Obj __args[5] = {v_globals, v__3517669_37, Nil, v_to, v__3517671_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj _3519115_37= co->res;
-Obj _3517665_37 = R[1];
-Obj _3517666_37 = R[2];
-Obj globals = R[3];
-Obj _3517663_37 = R[4];
-Obj _3517664_37 = R[5];
-Obj to = R[6];
-R[1] = _3517665_37;
-R[2] = _3517666_37;
-R[3] = globals;
-R[4] = _3517663_37;
-R[5] = _3517664_37;
-R[6] = to;
+Obj v__3519121_37= co->res;
+Obj v__3517671_37 = R[1];
+Obj v__3517672_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517669_37 = R[4];
+Obj v__3517670_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517671_37;
+R[2] = v__3517672_37;
+R[3] = v_globals;
+R[4] = v__3517669_37;
+R[5] = v__3517670_37;
+R[6] = v_to;
 saveCont(co, clofun114, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj _3519114_37= co->res;
-Obj _3517665_37 = R[1];
-Obj _3517666_37 = R[2];
-Obj globals = R[3];
-Obj _3517663_37 = R[4];
-Obj _3517664_37 = R[5];
-Obj to = R[6];
-R[1] = _3517665_37;
-R[2] = _3517666_37;
-R[3] = globals;
-R[4] = _3517663_37;
-R[5] = _3517664_37;
-R[6] = to;
+Obj v__3519120_37= co->res;
+Obj v__3517671_37 = R[1];
+Obj v__3517672_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517669_37 = R[4];
+Obj v__3517670_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517671_37;
+R[2] = v__3517672_37;
+R[3] = v_globals;
+R[4] = v__3517669_37;
+R[5] = v__3517670_37;
+R[6] = v_to;
 saveCont(co, clofun114, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj _3519113_37= co->res;
-Obj _3517665_37 = R[1];
-Obj _3517666_37 = R[2];
-Obj globals = R[3];
-Obj _3517663_37 = R[4];
-Obj _3517664_37 = R[5];
-Obj to = R[6];
-R[1] = _3517665_37;
-R[2] = _3517666_37;
-R[3] = globals;
-R[4] = _3517663_37;
-R[5] = _3517664_37;
-R[6] = to;
+Obj v__3519119_37= co->res;
+Obj v__3517671_37 = R[1];
+Obj v__3517672_37 = R[2];
+Obj v_globals = R[3];
+Obj v__3517669_37 = R[4];
+Obj v__3517670_37 = R[5];
+Obj v_to = R[6];
+R[1] = v__3517671_37;
+R[2] = v__3517672_37;
+R[3] = v_globals;
+R[4] = v__3517669_37;
+R[5] = v__3517670_37;
+R[6] = v_to;
 saveCont(co, clofun114, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj _3519112_37= co->res;
-Obj _3517665_37 = R[1];
-Obj globals = R[2];
-Obj _3517663_37 = R[3];
-Obj _3517664_37 = R[4];
-Obj to = R[5];
-Obj _3517666_37 = _3519112_37;
-R[1] = _3517665_37;
-R[2] = _3517666_37;
-R[3] = globals;
-R[4] = _3517663_37;
-R[5] = _3517664_37;
-R[6] = to;
+Obj v__3519118_37= co->res;
+Obj v__3517671_37 = R[1];
+Obj v_globals = R[2];
+Obj v__3517669_37 = R[3];
+Obj v__3517670_37 = R[4];
+Obj v_to = R[5];
+Obj v__3517672_37 = v__3519118_37;
+R[1] = v__3517671_37;
+R[2] = v__3517672_37;
+R[3] = v_globals;
+R[4] = v__3517669_37;
+R[5] = v__3517670_37;
+R[6] = v_to;
 saveCont(co, clofun114, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), to, _3517663_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v__3517669_37);
 return;
 }
 case 12:
 {
-Obj _3519111_37= co->res;
-Obj globals = R[1];
-Obj _3517663_37 = R[2];
-Obj _3517664_37 = R[3];
-Obj to = R[4];
-Obj _3517665_37 = _3519111_37;
-R[1] = _3517665_37;
-R[2] = globals;
-R[3] = _3517663_37;
-R[4] = _3517664_37;
-R[5] = to;
+Obj v__3519117_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517669_37 = R[2];
+Obj v__3517670_37 = R[3];
+Obj v_to = R[4];
+Obj v__3517671_37 = v__3519117_37;
+R[1] = v__3517671_37;
+R[2] = v_globals;
+R[3] = v__3517669_37;
+R[4] = v__3517670_37;
+R[5] = v_to;
 saveCont(co, clofun114, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517664_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517670_37);
 return;
 }
 case 13:
 {
-Obj _3519110_37= co->res;
-Obj globals = R[1];
-Obj _3517663_37 = R[2];
-Obj to = R[3];
-Obj _3517664_37 = _3519110_37;
-R[1] = globals;
-R[2] = _3517663_37;
-R[3] = _3517664_37;
-R[4] = to;
+Obj v__3519116_37= co->res;
+Obj v_globals = R[1];
+Obj v__3517669_37 = R[2];
+Obj v_to = R[3];
+Obj v__3517670_37 = v__3519116_37;
+R[1] = v_globals;
+R[2] = v__3517669_37;
+R[3] = v__3517670_37;
+R[4] = v_to;
 saveCont(co, clofun114, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517664_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517670_37);
 return;
 }
 }
@@ -2055,73 +2064,73 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj cont = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_cont = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun113, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj _3519125_37= co->res;
-Obj acc = R[1];
-Obj _3519126_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3519126_37);
+Obj v__3519131_37= co->res;
+Obj v_acc = R[1];
+Obj v__3519132_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519132_37);
 return;
 }
 case 2:
 {
-Obj _3519124_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3519130_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun113, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj _3519123_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v__3519129_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun113, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), _3519123_37, closureRef(R[0], 3), cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519129_37, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3519122_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v__3519128_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun113, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj _3519121_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v__3519127_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun113, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj _3519120_37= co->res;
-Obj cont = R[1];
-Obj acc = R[2];
-R[1] = cont;
-R[2] = acc;
+Obj v__3519126_37= co->res;
+Obj v_cont = R[1];
+Obj v_acc = R[2];
+R[1] = v_cont;
+R[2] = v_acc;
 saveCont(co, clofun113, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -2131,23 +2140,23 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517411_37 = R[1];
-Obj _3517412_37 = R[2];
-Obj _3519103_37 = PRIM_EQ(Nil, _3517412_37);
-if (True == _3519103_37) {
+Obj v__3517417_37 = R[1];
+Obj v__3517418_37 = R[2];
+Obj v__3519109_37 = PRIM_EQ(Nil, v__3517418_37);
+if (True == v__3519109_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3519104_37 = PRIM_ISCONS(_3517412_37);
-if (True == _3519104_37) {
-Obj _3519105_37 = PRIM_CAR(_3517412_37);
-Obj _3517661_37 = _3519105_37;
-Obj _3519106_37 = PRIM_CDR(_3517412_37);
-Obj _3517662_37 = _3519106_37;
-R[1] = _3517411_37;
-R[2] = _3517662_37;
+Obj v__3519110_37 = PRIM_ISCONS(v__3517418_37);
+if (True == v__3519110_37) {
+Obj v__3519111_37 = PRIM_CAR(v__3517418_37);
+Obj v__3517667_37 = v__3519111_37;
+Obj v__3519112_37 = PRIM_CDR(v__3517418_37);
+Obj v__3517668_37 = v__3519112_37;
+R[1] = v__3517417_37;
+R[2] = v__3517668_37;
 saveCont(co, clofun112, 1, R);
-coraCall1(co, _3517411_37, _3517661_37);
+coraCall1(co, v__3517417_37, v__3517667_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2158,11 +2167,11 @@ return;
 }
 case 1:
 {
-Obj _3519107_37= co->res;
-Obj _3517411_37 = R[1];
-Obj _3517662_37 = R[2];
+Obj v__3519113_37= co->res;
+Obj v__3517417_37 = R[1];
+Obj v__3517668_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), _3517411_37, _3517662_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3517417_37, v__3517668_37);
 return;
 }
 }
@@ -2172,47 +2181,47 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
-R[1] = exp;
+Obj v_globals = R[1];
+Obj v_exp = R[2];
+R[1] = v_exp;
 saveCont(co, clofun111, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3519101_37= co->res;
+Obj v__3519107_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), _3519101_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3519107_37);
 return;
 }
 case 2:
 {
-Obj _3519100_37= co->res;
+Obj v__3519106_37= co->res;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), _3519100_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3519106_37);
 return;
 }
 case 3:
 {
-Obj _3519099_37= co->res;
+Obj v__3519105_37= co->res;
 saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), _3519099_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519105_37);
 return;
 }
 case 4:
 {
-Obj _3519098_37= co->res;
+Obj v__3519104_37= co->res;
 saveCont(co, clofun111, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), _3519098_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519104_37);
 return;
 }
 case 5:
 {
-Obj _3519097_37= co->res;
-Obj exp = R[1];
+Obj v__3519103_37= co->res;
+Obj v_exp = R[1];
 saveCont(co, clofun111, 4, R);
-coraCall1(co, _3519097_37, exp);
+coraCall1(co, v__3519103_37, v_exp);
 return;
 }
 }
@@ -2222,29 +2231,29 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun110, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_exp);
 return;
 }
 case 1:
 {
-Obj _3519095_37= co->res;
-Obj _3517659_37 = R[1];
-Obj _3517660_37 = _3519095_37;
+Obj v__3519101_37= co->res;
+Obj v__3517665_37 = R[1];
+Obj v__3517666_37 = v__3519101_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3517659_37, _3517660_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3517665_37, v__3517666_37);
 return;
 }
 case 2:
 {
-Obj _3519094_37= co->res;
-Obj exp = R[1];
-Obj _3517659_37 = _3519094_37;
-R[1] = _3517659_37;
+Obj v__3519100_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517665_37 = v__3519100_37;
+R[1] = v__3517665_37;
 saveCont(co, clofun110, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
 return;
 }
 }
@@ -2254,23 +2263,23 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517407_37 = R[1];
-Obj _3517408_37 = R[2];
-Obj _3519087_37 = PRIM_EQ(Nil, _3517408_37);
-if (True == _3519087_37) {
-coraReturn(co, _3517407_37);
+Obj v__3517413_37 = R[1];
+Obj v__3517414_37 = R[2];
+Obj v__3519093_37 = PRIM_EQ(Nil, v__3517414_37);
+if (True == v__3519093_37) {
+coraReturn(co, v__3517413_37);
 return;
 } else {
-Obj _3519088_37 = PRIM_ISCONS(_3517408_37);
-if (True == _3519088_37) {
-Obj _3519089_37 = PRIM_CAR(_3517408_37);
-Obj _3517657_37 = _3519089_37;
-Obj _3519090_37 = PRIM_CDR(_3517408_37);
-Obj _3517658_37 = _3519090_37;
-Obj _3519091_37 = makeCons(co->gc, _3517407_37, Nil);
-Obj _3519092_37 = makeCons(co->gc, _3517657_37, _3519091_37);
+Obj v__3519094_37 = PRIM_ISCONS(v__3517414_37);
+if (True == v__3519094_37) {
+Obj v__3519095_37 = PRIM_CAR(v__3517414_37);
+Obj v__3517663_37 = v__3519095_37;
+Obj v__3519096_37 = PRIM_CDR(v__3517414_37);
+Obj v__3517664_37 = v__3519096_37;
+Obj v__3519097_37 = makeCons(co->gc, v__3517413_37, Nil);
+Obj v__3519098_37 = makeCons(co->gc, v__3517663_37, v__3519097_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), _3519092_37, _3517658_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3519098_37, v__3517664_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2286,70 +2295,70 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
-R[1] = exp;
+Obj v_exp = R[1];
+R[1] = v_exp;
 saveCont(co, clofun108, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj _3519085_37= co->res;
-Obj _3517654_37 = R[1];
+Obj v__3519091_37= co->res;
+Obj v__3517660_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517654_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517660_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj _3519084_37= co->res;
-Obj _3517654_37 = R[1];
-Obj _3517656_37 = _3519084_37;
-R[1] = _3517654_37;
+Obj v__3519090_37= co->res;
+Obj v__3517660_37 = R[1];
+Obj v__3517662_37 = v__3519090_37;
+R[1] = v__3517660_37;
 saveCont(co, clofun108, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517654_37, _3517656_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517660_37, v__3517662_37);
 return;
 }
 case 3:
 {
-Obj _3519083_37= co->res;
-Obj _3517654_37 = R[1];
-Obj _3517655_37 = _3519083_37;
-R[1] = _3517654_37;
+Obj v__3519089_37= co->res;
+Obj v__3517660_37 = R[1];
+Obj v__3517661_37 = v__3519089_37;
+R[1] = v__3517660_37;
 saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, _3517655_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3517661_37);
 return;
 }
 case 4:
 {
-Obj _3519082_37= co->res;
-Obj exp = R[1];
-Obj _3517654_37 = R[2];
-R[1] = _3517654_37;
+Obj v__3519088_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517660_37 = R[2];
+R[1] = v__3517660_37;
 saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517654_37, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517660_37, v_exp);
 return;
 }
 case 5:
 {
-Obj _3519081_37= co->res;
-Obj exp = R[1];
-Obj _3517654_37 = R[2];
-R[1] = exp;
-R[2] = _3517654_37;
+Obj v__3519087_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517660_37 = R[2];
+R[1] = v_exp;
+R[2] = v__3517660_37;
 saveCont(co, clofun108, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517654_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517660_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj _3519080_37= co->res;
-Obj exp = R[1];
-Obj _3517654_37 = _3519080_37;
-R[1] = exp;
-R[2] = _3517654_37;
+Obj v__3519086_37= co->res;
+Obj v_exp = R[1];
+Obj v__3517660_37 = v__3519086_37;
+R[1] = v_exp;
+R[2] = v__3517660_37;
 saveCont(co, clofun108, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), _3517654_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517660_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2359,9 +2368,9 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v_exp);
 return;
 }
 }
@@ -2371,9 +2380,9 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), exp, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_exp, globalRef(co, getBinding(co, packageID, 70)));
 return;
 }
 }
@@ -2383,9 +2392,9 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj exp = R[1];
+Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, v_exp);
 return;
 }
 }
@@ -2395,10 +2404,10 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj exp = R[2];
+Obj v_globals = R[1];
+Obj v_exp = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, globals, exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, v_globals, v_exp);
 return;
 }
 }
@@ -2408,39 +2417,39 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = label;
-R[2] = w;
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_label;
+R[2] = v_w;
 saveCont(co, clofun103, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj _3519074_37= co->res;
-Obj w = R[1];
+Obj v__3519080_37= co->res;
+Obj v_w = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3519073_37= co->res;
-Obj w = R[1];
-R[1] = w;
+Obj v__3519079_37= co->res;
+Obj v_w = R[1];
+R[1] = v_w;
 saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj _3519072_37= co->res;
-Obj label = R[1];
-Obj w = R[2];
-R[1] = w;
+Obj v__3519078_37= co->res;
+Obj v_label = R[1];
+Obj v_w = R[2];
+R[1] = v_w;
 saveCont(co, clofun103, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_w, v_label);
 return;
 }
 }
@@ -2450,21 +2459,21 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj w = R[1];
-Obj label = R[2];
-R[1] = w;
-R[2] = label;
+Obj v_w = R[1];
+Obj v_label = R[2];
+R[1] = v_w;
+R[2] = v_label;
 saveCont(co, clofun102, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj _3519070_37= co->res;
-Obj w = R[1];
-Obj label = R[2];
+Obj v__3519076_37= co->res;
+Obj v_w = R[1];
+Obj v_label = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), w, label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_w, v_label);
 return;
 }
 }
@@ -2474,136 +2483,136 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517401_37 = R[1];
-Obj _3517402_37 = R[2];
-Obj _3517403_37 = R[3];
-Obj _3517404_37 = R[4];
-Obj _3517405_37 = R[5];
-Obj _3517650_37 = makeNative(co->gc, 1, clofun100, 0, 0);
-Obj _3519048_37 = PRIM_ISCONS(_3517405_37);
-if (True == _3519048_37) {
-Obj _3519049_37 = PRIM_CAR(_3517405_37);
-Obj _3519050_37 = PRIM_EQ(getBinding(co, packageID, 62).name, _3519049_37);
-if (True == _3519050_37) {
-Obj _3519051_37 = PRIM_CDR(_3517405_37);
-Obj _3519052_37 = PRIM_ISCONS(_3519051_37);
-if (True == _3519052_37) {
-Obj _3519053_37 = PRIM_CDR(_3517405_37);
-Obj _3519054_37 = PRIM_CAR(_3519053_37);
-Obj _3517651_37 = _3519054_37;
-Obj _3519055_37 = PRIM_CDR(_3517405_37);
-Obj _3519056_37 = PRIM_CDR(_3519055_37);
-Obj _3519057_37 = PRIM_ISCONS(_3519056_37);
-if (True == _3519057_37) {
-Obj _3519058_37 = PRIM_CDR(_3517405_37);
-Obj _3519059_37 = PRIM_CDR(_3519058_37);
-Obj _3519060_37 = PRIM_CAR(_3519059_37);
-Obj _3517652_37 = _3519060_37;
-Obj _3519061_37 = PRIM_CDR(_3517405_37);
-Obj _3519062_37 = PRIM_CDR(_3519061_37);
-Obj _3519063_37 = PRIM_CDR(_3519062_37);
-Obj _3517653_37 = _3519063_37;
-R[1] = _3517651_37;
-R[2] = _3517653_37;
-R[3] = _3517401_37;
-R[4] = _3517402_37;
-R[5] = _3517403_37;
-R[6] = _3517404_37;
-R[7] = _3517652_37;
+Obj v__3517407_37 = R[1];
+Obj v__3517408_37 = R[2];
+Obj v__3517409_37 = R[3];
+Obj v__3517410_37 = R[4];
+Obj v__3517411_37 = R[5];
+Obj v__3517656_37 = makeNative(co->gc, 1, clofun100, 0, 0);
+Obj v__3519054_37 = PRIM_ISCONS(v__3517411_37);
+if (True == v__3519054_37) {
+Obj v__3519055_37 = PRIM_CAR(v__3517411_37);
+Obj v__3519056_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3519055_37);
+if (True == v__3519056_37) {
+Obj v__3519057_37 = PRIM_CDR(v__3517411_37);
+Obj v__3519058_37 = PRIM_ISCONS(v__3519057_37);
+if (True == v__3519058_37) {
+Obj v__3519059_37 = PRIM_CDR(v__3517411_37);
+Obj v__3519060_37 = PRIM_CAR(v__3519059_37);
+Obj v__3517657_37 = v__3519060_37;
+Obj v__3519061_37 = PRIM_CDR(v__3517411_37);
+Obj v__3519062_37 = PRIM_CDR(v__3519061_37);
+Obj v__3519063_37 = PRIM_ISCONS(v__3519062_37);
+if (True == v__3519063_37) {
+Obj v__3519064_37 = PRIM_CDR(v__3517411_37);
+Obj v__3519065_37 = PRIM_CDR(v__3519064_37);
+Obj v__3519066_37 = PRIM_CAR(v__3519065_37);
+Obj v__3517658_37 = v__3519066_37;
+Obj v__3519067_37 = PRIM_CDR(v__3517411_37);
+Obj v__3519068_37 = PRIM_CDR(v__3519067_37);
+Obj v__3519069_37 = PRIM_CDR(v__3519068_37);
+Obj v__3517659_37 = v__3519069_37;
+R[1] = v__3517657_37;
+R[2] = v__3517659_37;
+R[3] = v__3517407_37;
+R[4] = v__3517408_37;
+R[5] = v__3517409_37;
+R[6] = v__3517410_37;
+R[7] = v__3517658_37;
 saveCont(co, clofun101, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517404_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517410_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, v__3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, v__3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, v__3517656_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517650_37);
+coraCall0(co, v__3517656_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519068_37= co->res;
-Obj _3517401_37 = R[1];
-Obj _3517402_37 = R[2];
-Obj _3517403_37 = R[3];
-Obj _3517404_37 = R[4];
-Obj _3517652_37 = R[5];
+Obj v__3519074_37= co->res;
+Obj v__3517407_37 = R[1];
+Obj v__3517408_37 = R[2];
+Obj v__3517409_37 = R[3];
+Obj v__3517410_37 = R[4];
+Obj v__3517658_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {_3517401_37, _3517402_37, _3517403_37, _3517404_37, _3517652_37};
+Obj __args[5] = {v__3517407_37, v__3517408_37, v__3517409_37, v__3517410_37, v__3517658_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj _3519067_37= co->res;
-Obj _3517653_37 = R[1];
-Obj _3517401_37 = R[2];
-Obj _3517402_37 = R[3];
-Obj _3517403_37 = R[4];
-Obj _3517404_37 = R[5];
-Obj _3517652_37 = R[6];
-R[1] = _3517401_37;
-R[2] = _3517402_37;
-R[3] = _3517403_37;
-R[4] = _3517404_37;
-R[5] = _3517652_37;
+Obj v__3519073_37= co->res;
+Obj v__3517659_37 = R[1];
+Obj v__3517407_37 = R[2];
+Obj v__3517408_37 = R[3];
+Obj v__3517409_37 = R[4];
+Obj v__3517410_37 = R[5];
+Obj v__3517658_37 = R[6];
+R[1] = v__3517407_37;
+R[2] = v__3517408_37;
+R[3] = v__3517409_37;
+R[4] = v__3517410_37;
+R[5] = v__3517658_37;
 saveCont(co, clofun101, 1, R);
-Obj __args[5] = {_3517401_37, _3517402_37, _3517403_37, _3517404_37, _3517653_37};
+Obj __args[5] = {v__3517407_37, v__3517408_37, v__3517409_37, v__3517410_37, v__3517659_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3519066_37= co->res;
-Obj _3517653_37 = R[1];
-Obj _3517401_37 = R[2];
-Obj _3517402_37 = R[3];
-Obj _3517403_37 = R[4];
-Obj _3517404_37 = R[5];
-Obj _3517652_37 = R[6];
-R[1] = _3517653_37;
-R[2] = _3517401_37;
-R[3] = _3517402_37;
-R[4] = _3517403_37;
-R[5] = _3517404_37;
-R[6] = _3517652_37;
+Obj v__3519072_37= co->res;
+Obj v__3517659_37 = R[1];
+Obj v__3517407_37 = R[2];
+Obj v__3517408_37 = R[3];
+Obj v__3517409_37 = R[4];
+Obj v__3517410_37 = R[5];
+Obj v__3517658_37 = R[6];
+R[1] = v__3517659_37;
+R[2] = v__3517407_37;
+R[3] = v__3517408_37;
+R[4] = v__3517409_37;
+R[5] = v__3517410_37;
+R[6] = v__3517658_37;
 saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), _3517404_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517410_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj _3519064_37= co->res;
-Obj _3517651_37 = R[1];
-Obj _3517653_37 = R[2];
-Obj _3517401_37 = R[3];
-Obj _3517402_37 = R[4];
-Obj _3517403_37 = R[5];
-Obj _3517404_37 = R[6];
-Obj _3517652_37 = R[7];
-Obj _3519065_37 = PRIM_CAR(_3517651_37);
-R[1] = _3517653_37;
-R[2] = _3517401_37;
-R[3] = _3517402_37;
-R[4] = _3517403_37;
-R[5] = _3517404_37;
-R[6] = _3517652_37;
+Obj v__3519070_37= co->res;
+Obj v__3517657_37 = R[1];
+Obj v__3517659_37 = R[2];
+Obj v__3517407_37 = R[3];
+Obj v__3517408_37 = R[4];
+Obj v__3517409_37 = R[5];
+Obj v__3517410_37 = R[6];
+Obj v__3517658_37 = R[7];
+Obj v__3519071_37 = PRIM_CAR(v__3517657_37);
+R[1] = v__3517659_37;
+R[2] = v__3517407_37;
+R[3] = v__3517408_37;
+R[4] = v__3517409_37;
+R[5] = v__3517410_37;
+R[6] = v__3517658_37;
 saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), _3517404_37, _3519065_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3517410_37, v__3519071_37);
 return;
 }
 }
@@ -2624,25 +2633,25 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj l = R[5];
-Obj _3519034_37 = primGenSym(co);
-Obj _3517647_37 = _3519034_37;
-Obj _3519045_37 = primSet(co, _3517647_37, makeNative(co->gc, 2, clofun98, 1, 5, globals, self, env, w, _3517647_37));
-R[1] = l;
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_l = R[5];
+Obj v__3519040_37 = primGenSym(co);
+Obj v__3517653_37 = v__3519040_37;
+Obj v__3519051_37 = primSet(co, v__3517653_37, makeNative(co->gc, 2, clofun98, 1, 5, v_globals, v_self, v_env, v_w, v__3517653_37));
+R[1] = v_l;
 saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517647_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517653_37);
 return;
 }
 case 1:
 {
-Obj _3519046_37= co->res;
-Obj l = R[1];
+Obj v__3519052_37= co->res;
+Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3519046_37, l);
+coraCall1(co, v__3519052_37, v_l);
 return;
 }
 }
@@ -2652,21 +2661,21 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3519035_37 = PRIM_EQ(Nil, x);
-if (True == _3519035_37) {
+Obj v_x = R[1];
+Obj v__3519041_37 = PRIM_EQ(Nil, v_x);
+if (True == v__3519041_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3519036_37 = PRIM_ISCONS(x);
-if (True == _3519036_37) {
-Obj _3519037_37 = PRIM_CAR(x);
-Obj _3517648_37 = _3519037_37;
-Obj _3519038_37 = PRIM_CDR(x);
-Obj _3517649_37 = _3519038_37;
-R[1] = _3517649_37;
+Obj v__3519042_37 = PRIM_ISCONS(v_x);
+if (True == v__3519042_37) {
+Obj v__3519043_37 = PRIM_CAR(v_x);
+Obj v__3517654_37 = v__3519043_37;
+Obj v__3519044_37 = PRIM_CDR(v_x);
+Obj v__3517655_37 = v__3519044_37;
+R[1] = v__3517655_37;
 saveCont(co, clofun98, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), _3517648_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517654_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2678,42 +2687,42 @@ return;
 }
 case 1:
 {
-Obj _3519043_37= co->res;
-Obj _3517649_37 = R[1];
+Obj v__3519049_37= co->res;
+Obj v__3517655_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3519043_37, _3517649_37);
+coraCall1(co, v__3519049_37, v__3517655_37);
 return;
 }
 case 2:
 {
-Obj _3519042_37= co->res;
-Obj _3517649_37 = R[1];
-R[1] = _3517649_37;
+Obj v__3519048_37= co->res;
+Obj v__3517655_37 = R[1];
+R[1] = v__3517655_37;
 saveCont(co, clofun98, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3519044_37= co->res;
-Obj _3517649_37 = R[1];
+Obj v__3519050_37= co->res;
+Obj v__3517655_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, _3519044_37, _3517649_37);
+coraCall1(co, v__3519050_37, v__3517655_37);
 return;
 }
 case 4:
 {
-Obj _3519040_37= co->res;
-Obj _3517649_37 = R[1];
-Obj _3519041_37 = primNot(_3519040_37);
-if (True == _3519041_37) {
-R[1] = _3517649_37;
+Obj v__3519046_37= co->res;
+Obj v__3517655_37 = R[1];
+Obj v__3519047_37 = primNot(v__3519046_37);
+if (True == v__3519047_37) {
+R[1] = v__3517655_37;
 saveCont(co, clofun98, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = _3517649_37;
+R[1] = v__3517655_37;
 saveCont(co, clofun98, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
@@ -2721,11 +2730,11 @@ return;
 }
 case 5:
 {
-Obj _3519039_37= co->res;
-Obj _3517649_37 = R[1];
-R[1] = _3517649_37;
+Obj v__3519045_37= co->res;
+Obj v__3517655_37 = R[1];
+R[1] = v__3517655_37;
 saveCont(co, clofun98, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517649_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517655_37);
 return;
 }
 }
@@ -2735,27 +2744,27 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env1 = R[3];
-Obj w = R[4];
-Obj x1 = R[5];
-Obj _3518747_37 = primGenSym(co);
-Obj _3517610_37 = _3518747_37;
-Obj _3519031_37 = primSet(co, _3517610_37, makeNative(co->gc, 3, clofun96, 2, 4, self, _3517610_37, globals, w));
-R[1] = x1;
-R[2] = env1;
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env1 = R[3];
+Obj v_w = R[4];
+Obj v_x1 = R[5];
+Obj v__3518753_37 = primGenSym(co);
+Obj v__3517616_37 = v__3518753_37;
+Obj v__3519037_37 = primSet(co, v__3517616_37, makeNative(co->gc, 3, clofun96, 2, 4, v_self, v__3517616_37, v_globals, v_w));
+R[1] = v_x1;
+R[2] = v_env1;
 saveCont(co, clofun97, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), _3517610_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517616_37);
 return;
 }
 case 1:
 {
-Obj _3519032_37= co->res;
-Obj x1 = R[1];
-Obj env1 = R[2];
+Obj v__3519038_37= co->res;
+Obj v_x1 = R[1];
+Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, _3519032_37, x1, env1);
+coraCall2(co, v__3519038_37, v_x1, v_env1);
 return;
 }
 }
@@ -2765,76 +2774,76 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x2 = R[1];
-Obj env = R[2];
-Obj _3518748_37 = primIsSymbol(x2);
-if (True == _3518748_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), x2);
-return;
-} else {
-Obj _3517611_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), env, closureRef(R[0], 2), x2, closureRef(R[0], 3));
-Obj _3519018_37 = PRIM_ISCONS(x2);
-if (True == _3519018_37) {
-Obj _3519019_37 = PRIM_CAR(x2);
-Obj _3519020_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3519019_37);
-if (True == _3519020_37) {
-Obj _3519021_37 = PRIM_CDR(x2);
-Obj _3519022_37 = PRIM_ISCONS(_3519021_37);
-if (True == _3519022_37) {
-Obj _3519023_37 = PRIM_CDR(x2);
-Obj _3519024_37 = PRIM_CAR(_3519023_37);
-Obj _3517646_37 = _3519024_37;
-Obj _3519025_37 = PRIM_CDR(x2);
-Obj _3519026_37 = PRIM_CDR(_3519025_37);
-Obj _3519027_37 = PRIM_EQ(Nil, _3519026_37);
-if (True == _3519027_37) {
-R[1] = _3517646_37;
+Obj v_x2 = R[1];
+Obj v_env = R[2];
+Obj v__3518754_37 = primIsSymbol(v_x2);
+if (True == v__3518754_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_x2);
+return;
+} else {
+Obj v__3517617_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v__3519024_37 = PRIM_ISCONS(v_x2);
+if (True == v__3519024_37) {
+Obj v__3519025_37 = PRIM_CAR(v_x2);
+Obj v__3519026_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3519025_37);
+if (True == v__3519026_37) {
+Obj v__3519027_37 = PRIM_CDR(v_x2);
+Obj v__3519028_37 = PRIM_ISCONS(v__3519027_37);
+if (True == v__3519028_37) {
+Obj v__3519029_37 = PRIM_CDR(v_x2);
+Obj v__3519030_37 = PRIM_CAR(v__3519029_37);
+Obj v__3517652_37 = v__3519030_37;
+Obj v__3519031_37 = PRIM_CDR(v_x2);
+Obj v__3519032_37 = PRIM_CDR(v__3519031_37);
+Obj v__3519033_37 = PRIM_EQ(Nil, v__3519032_37);
+if (True == v__3519033_37) {
+R[1] = v__3517652_37;
 saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517611_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517611_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517611_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517611_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3519030_37= co->res;
+Obj v__3519036_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj _3519029_37= co->res;
+Obj v__3519035_37= co->res;
 saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), _3519029_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519035_37);
 return;
 }
 case 3:
 {
-Obj _3519028_37= co->res;
-Obj _3517646_37 = R[1];
+Obj v__3519034_37= co->res;
+Obj v__3517652_37 = R[1];
 saveCont(co, clofun96, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517646_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517652_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -2844,60 +2853,60 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517612_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj _3519006_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == _3519006_37) {
-Obj _3519007_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj _3519008_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3519007_37);
-if (True == _3519008_37) {
-Obj _3519009_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3519010_37 = PRIM_ISCONS(_3519009_37);
-if (True == _3519010_37) {
-Obj _3519011_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3519012_37 = PRIM_CAR(_3519011_37);
-Obj _3517645_37 = _3519012_37;
-Obj _3519013_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj _3519014_37 = PRIM_CDR(_3519013_37);
-Obj _3519015_37 = PRIM_EQ(Nil, _3519014_37);
-if (True == _3519015_37) {
-R[1] = _3517645_37;
+Obj v__3517618_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3519012_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3519012_37) {
+Obj v__3519013_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3519014_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3519013_37);
+if (True == v__3519014_37) {
+Obj v__3519015_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519016_37 = PRIM_ISCONS(v__3519015_37);
+if (True == v__3519016_37) {
+Obj v__3519017_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519018_37 = PRIM_CAR(v__3519017_37);
+Obj v__3517651_37 = v__3519018_37;
+Obj v__3519019_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519020_37 = PRIM_CDR(v__3519019_37);
+Obj v__3519021_37 = PRIM_EQ(Nil, v__3519020_37);
+if (True == v__3519021_37) {
+R[1] = v__3517651_37;
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517612_37);
+coraCall0(co, v__3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517612_37);
+coraCall0(co, v__3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517612_37);
+coraCall0(co, v__3517618_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517612_37);
+coraCall0(co, v__3517618_37);
 return;
 }
 }
 case 1:
 {
-Obj _3519017_37= co->res;
+Obj v__3519023_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3519016_37= co->res;
-Obj _3517645_37 = R[1];
+Obj v__3519022_37= co->res;
+Obj v__3517651_37 = R[1];
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517645_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517651_37);
 return;
 }
 }
@@ -2907,145 +2916,145 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517613_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518982_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == _3518982_37) {
-Obj _3518983_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj _3518984_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518983_37);
-if (True == _3518984_37) {
-Obj _3518985_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518986_37 = PRIM_ISCONS(_3518985_37);
-if (True == _3518986_37) {
-Obj _3518987_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518988_37 = PRIM_CAR(_3518987_37);
-Obj _3517644_37 = _3518988_37;
-Obj _3518989_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj _3518990_37 = PRIM_CDR(_3518989_37);
-Obj _3518991_37 = PRIM_EQ(Nil, _3518990_37);
-if (True == _3518991_37) {
-Obj _3518992_37 = primIsSymbol(_3517644_37);
-if (True == _3518992_37) {
-R[1] = _3517644_37;
+Obj v__3517619_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518988_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3518988_37) {
+Obj v__3518989_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3518990_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518989_37);
+if (True == v__3518990_37) {
+Obj v__3518991_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3518992_37 = PRIM_ISCONS(v__3518991_37);
+if (True == v__3518992_37) {
+Obj v__3518993_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3518994_37 = PRIM_CAR(v__3518993_37);
+Obj v__3517650_37 = v__3518994_37;
+Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
+Obj v__3518997_37 = PRIM_EQ(Nil, v__3518996_37);
+if (True == v__3518997_37) {
+Obj v__3518998_37 = primIsSymbol(v__3517650_37);
+if (True == v__3518998_37) {
+R[1] = v__3517650_37;
 saveCont(co, clofun94, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = _3517644_37;
+R[1] = v__3517650_37;
 saveCont(co, clofun94, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517644_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517650_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517613_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517613_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517613_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517613_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518995_37= co->res;
+Obj v__3519001_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj _3518994_37= co->res;
+Obj v__3519000_37= co->res;
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518994_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519000_37);
 return;
 }
 case 3:
 {
-Obj _3518993_37= co->res;
-Obj _3517644_37 = R[1];
+Obj v__3518999_37= co->res;
+Obj v__3517650_37 = R[1];
 saveCont(co, clofun94, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), _3517644_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517650_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518998_37= co->res;
+Obj v__3519004_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj _3518997_37= co->res;
-Obj _3517644_37 = R[1];
+Obj v__3519003_37= co->res;
+Obj v__3517650_37 = R[1];
 saveCont(co, clofun94, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517644_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517650_37);
 return;
 }
 case 6:
 {
-Obj _3519002_37= co->res;
+Obj v__3519008_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj _3519001_37= co->res;
+Obj v__3519007_37= co->res;
 saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3519001_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519007_37);
 return;
 }
 case 8:
 {
-Obj _3519000_37= co->res;
-Obj _3517644_37 = R[1];
+Obj v__3519006_37= co->res;
+Obj v__3517650_37 = R[1];
 saveCont(co, clofun94, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), _3517644_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3517650_37);
 return;
 }
 case 9:
 {
-Obj _3518996_37= co->res;
-Obj _3517644_37 = R[1];
-if (True == _3518996_37) {
-R[1] = _3517644_37;
+Obj v__3519002_37= co->res;
+Obj v__3517650_37 = R[1];
+if (True == v__3519002_37) {
+R[1] = v__3517650_37;
 saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj _3518999_37 = primIsString(_3517644_37);
-if (True == _3518999_37) {
-R[1] = _3517644_37;
+Obj v__3519005_37 = primIsString(v__3517650_37);
+if (True == v__3519005_37) {
+R[1] = v__3517650_37;
 saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj _3519003_37 = PRIM_EQ(_3517644_37, Nil);
-if (True == _3519003_37) {
+Obj v__3519009_37 = PRIM_EQ(v__3517650_37, Nil);
+if (True == v__3519009_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj _3519004_37 = PRIM_EQ(_3517644_37, True);
-if (True == _3519004_37) {
+Obj v__3519010_37 = PRIM_EQ(v__3517650_37, True);
+if (True == v__3519010_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj _3519005_37 = PRIM_EQ(_3517644_37, False);
-if (True == _3519005_37) {
+Obj v__3519011_37 = PRIM_EQ(v__3517650_37, False);
+if (True == v__3519011_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3066,171 +3075,171 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517614_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518947_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518947_37) {
-Obj _3518948_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518949_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518948_37);
-if (True == _3518949_37) {
-Obj _3518950_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518951_37 = PRIM_ISCONS(_3518950_37);
-if (True == _3518951_37) {
-Obj _3518952_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518953_37 = PRIM_CAR(_3518952_37);
-Obj _3517641_37 = _3518953_37;
-Obj _3518954_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518955_37 = PRIM_CDR(_3518954_37);
-Obj _3518956_37 = PRIM_ISCONS(_3518955_37);
-if (True == _3518956_37) {
-Obj _3518957_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518958_37 = PRIM_CDR(_3518957_37);
-Obj _3518959_37 = PRIM_CAR(_3518958_37);
-Obj _3517642_37 = _3518959_37;
-Obj _3518960_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518961_37 = PRIM_CDR(_3518960_37);
-Obj _3518962_37 = PRIM_CDR(_3518961_37);
-Obj _3518963_37 = PRIM_ISCONS(_3518962_37);
-if (True == _3518963_37) {
-Obj _3518964_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518965_37 = PRIM_CDR(_3518964_37);
-Obj _3518966_37 = PRIM_CDR(_3518965_37);
-Obj _3518967_37 = PRIM_CAR(_3518966_37);
-Obj _3517643_37 = _3518967_37;
-Obj _3518968_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518969_37 = PRIM_CDR(_3518968_37);
-Obj _3518970_37 = PRIM_CDR(_3518969_37);
-Obj _3518971_37 = PRIM_CDR(_3518970_37);
-Obj _3518972_37 = PRIM_EQ(Nil, _3518971_37);
-if (True == _3518972_37) {
-R[1] = _3517642_37;
-R[2] = _3517641_37;
-R[3] = _3517643_37;
+Obj v__3517620_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3518953_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518953_37) {
+Obj v__3518954_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518955_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518954_37);
+if (True == v__3518955_37) {
+Obj v__3518956_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518957_37 = PRIM_ISCONS(v__3518956_37);
+if (True == v__3518957_37) {
+Obj v__3518958_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518959_37 = PRIM_CAR(v__3518958_37);
+Obj v__3517647_37 = v__3518959_37;
+Obj v__3518960_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518961_37 = PRIM_CDR(v__3518960_37);
+Obj v__3518962_37 = PRIM_ISCONS(v__3518961_37);
+if (True == v__3518962_37) {
+Obj v__3518963_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518964_37 = PRIM_CDR(v__3518963_37);
+Obj v__3518965_37 = PRIM_CAR(v__3518964_37);
+Obj v__3517648_37 = v__3518965_37;
+Obj v__3518966_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518967_37 = PRIM_CDR(v__3518966_37);
+Obj v__3518968_37 = PRIM_CDR(v__3518967_37);
+Obj v__3518969_37 = PRIM_ISCONS(v__3518968_37);
+if (True == v__3518969_37) {
+Obj v__3518970_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518971_37 = PRIM_CDR(v__3518970_37);
+Obj v__3518972_37 = PRIM_CDR(v__3518971_37);
+Obj v__3518973_37 = PRIM_CAR(v__3518972_37);
+Obj v__3517649_37 = v__3518973_37;
+Obj v__3518974_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518975_37 = PRIM_CDR(v__3518974_37);
+Obj v__3518976_37 = PRIM_CDR(v__3518975_37);
+Obj v__3518977_37 = PRIM_CDR(v__3518976_37);
+Obj v__3518978_37 = PRIM_EQ(Nil, v__3518977_37);
+if (True == v__3518978_37) {
+R[1] = v__3517648_37;
+R[2] = v__3517647_37;
+R[3] = v__3517649_37;
 saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517641_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517647_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517614_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517614_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517614_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517614_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517614_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517614_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518980_37= co->res;
-Obj _3517641_37 = R[1];
-Obj _3517643_37 = R[2];
-Obj _3518981_37 = makeCons(co->gc, _3517641_37, closureRef(R[0], 5));
+Obj v__3518986_37= co->res;
+Obj v__3517647_37 = R[1];
+Obj v__3517649_37 = R[2];
+Obj v__3518987_37 = makeCons(co->gc, v__3517647_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, _3518980_37, _3517643_37, _3518981_37);
+coraCall2(co, v__3518986_37, v__3517649_37, v__3518987_37);
 return;
 }
 case 2:
 {
-Obj _3518979_37= co->res;
-Obj _3517641_37 = R[1];
-Obj _3517643_37 = R[2];
-R[1] = _3517641_37;
-R[2] = _3517643_37;
+Obj v__3518985_37= co->res;
+Obj v__3517647_37 = R[1];
+Obj v__3517649_37 = R[2];
+R[1] = v__3517647_37;
+R[2] = v__3517649_37;
 saveCont(co, clofun93, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518978_37= co->res;
-Obj _3517641_37 = R[1];
-Obj _3517643_37 = R[2];
-R[1] = _3517641_37;
-R[2] = _3517643_37;
+Obj v__3518984_37= co->res;
+Obj v__3517647_37 = R[1];
+Obj v__3517649_37 = R[2];
+R[1] = v__3517647_37;
+R[2] = v__3517649_37;
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518977_37= co->res;
-Obj _3517642_37 = R[1];
-Obj _3517641_37 = R[2];
-Obj _3517643_37 = R[3];
-R[1] = _3517641_37;
-R[2] = _3517643_37;
+Obj v__3518983_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3517649_37 = R[3];
+R[1] = v__3517647_37;
+R[2] = v__3517649_37;
 saveCont(co, clofun93, 3, R);
-coraCall2(co, _3518977_37, _3517642_37, closureRef(R[0], 5));
+coraCall2(co, v__3518983_37, v__3517648_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj _3518976_37= co->res;
-Obj _3517642_37 = R[1];
-Obj _3517641_37 = R[2];
-Obj _3517643_37 = R[3];
-R[1] = _3517642_37;
-R[2] = _3517641_37;
-R[3] = _3517643_37;
+Obj v__3518982_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3517649_37 = R[3];
+R[1] = v__3517648_37;
+R[2] = v__3517647_37;
+R[3] = v__3517649_37;
 saveCont(co, clofun93, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518975_37= co->res;
-Obj _3517642_37 = R[1];
-Obj _3517641_37 = R[2];
-Obj _3517643_37 = R[3];
-R[1] = _3517642_37;
-R[2] = _3517641_37;
-R[3] = _3517643_37;
+Obj v__3518981_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3517649_37 = R[3];
+R[1] = v__3517648_37;
+R[2] = v__3517647_37;
+R[3] = v__3517649_37;
 saveCont(co, clofun93, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj _3518974_37= co->res;
-Obj _3517642_37 = R[1];
-Obj _3517641_37 = R[2];
-Obj _3517643_37 = R[3];
-R[1] = _3517642_37;
-R[2] = _3517641_37;
-R[3] = _3517643_37;
+Obj v__3518980_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3517649_37 = R[3];
+R[1] = v__3517648_37;
+R[2] = v__3517647_37;
+R[3] = v__3517649_37;
 saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), _3517641_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3517647_37);
 return;
 }
 case 8:
 {
-Obj _3518973_37= co->res;
-Obj _3517642_37 = R[1];
-Obj _3517641_37 = R[2];
-Obj _3517643_37 = R[3];
-R[1] = _3517642_37;
-R[2] = _3517641_37;
-R[3] = _3517643_37;
+Obj v__3518979_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3517647_37 = R[2];
+Obj v__3517649_37 = R[3];
+R[1] = v__3517648_37;
+R[2] = v__3517647_37;
+R[3] = v__3517649_37;
 saveCont(co, clofun93, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3242,153 +3251,153 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517615_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518917_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518917_37) {
-Obj _3518918_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518919_37 = PRIM_ISCONS(_3518918_37);
-if (True == _3518919_37) {
-Obj _3518920_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518921_37 = PRIM_CAR(_3518920_37);
-Obj _3518922_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3518921_37);
-if (True == _3518922_37) {
-Obj _3518923_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518924_37 = PRIM_CDR(_3518923_37);
-Obj _3518925_37 = PRIM_ISCONS(_3518924_37);
-if (True == _3518925_37) {
-Obj _3518926_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518927_37 = PRIM_CDR(_3518926_37);
-Obj _3518928_37 = PRIM_CAR(_3518927_37);
-Obj _3517639_37 = _3518928_37;
-Obj _3518929_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518930_37 = PRIM_CDR(_3518929_37);
-Obj _3518931_37 = PRIM_CDR(_3518930_37);
-Obj _3518932_37 = PRIM_EQ(Nil, _3518931_37);
-if (True == _3518932_37) {
-Obj _3518933_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3517640_37 = _3518933_37;
-R[1] = _3517639_37;
-R[2] = _3517640_37;
+Obj v__3517621_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518923_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518923_37) {
+Obj v__3518924_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518925_37 = PRIM_ISCONS(v__3518924_37);
+if (True == v__3518925_37) {
+Obj v__3518926_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518927_37 = PRIM_CAR(v__3518926_37);
+Obj v__3518928_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518927_37);
+if (True == v__3518928_37) {
+Obj v__3518929_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518930_37 = PRIM_CDR(v__3518929_37);
+Obj v__3518931_37 = PRIM_ISCONS(v__3518930_37);
+if (True == v__3518931_37) {
+Obj v__3518932_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518933_37 = PRIM_CDR(v__3518932_37);
+Obj v__3518934_37 = PRIM_CAR(v__3518933_37);
+Obj v__3517645_37 = v__3518934_37;
+Obj v__3518935_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518936_37 = PRIM_CDR(v__3518935_37);
+Obj v__3518937_37 = PRIM_CDR(v__3518936_37);
+Obj v__3518938_37 = PRIM_EQ(Nil, v__3518937_37);
+if (True == v__3518938_37) {
+Obj v__3518939_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3517646_37 = v__3518939_37;
+R[1] = v__3517645_37;
+R[2] = v__3517646_37;
 saveCont(co, clofun92, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), _3517639_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517645_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517615_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517615_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517615_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517615_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517615_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518938_37= co->res;
+Obj v__3518944_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518937_37= co->res;
-Obj _3517640_37 = R[1];
+Obj v__3518943_37= co->res;
+Obj v__3517646_37 = R[1];
 saveCont(co, clofun92, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518941_37= co->res;
+Obj v__3518947_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj _3518940_37= co->res;
-Obj _3517640_37 = R[1];
+Obj v__3518946_37= co->res;
+Obj v__3517646_37 = R[1];
 saveCont(co, clofun92, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj _3518944_37= co->res;
+Obj v__3518950_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj _3518943_37= co->res;
-Obj _3517640_37 = R[1];
+Obj v__3518949_37= co->res;
+Obj v__3517646_37 = R[1];
 saveCont(co, clofun92, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj _3518946_37= co->res;
+Obj v__3518952_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj _3518945_37= co->res;
-Obj _3517640_37 = R[1];
+Obj v__3518951_37= co->res;
+Obj v__3517646_37 = R[1];
 saveCont(co, clofun92, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517640_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518935_37= co->res;
-Obj _3517639_37 = R[1];
-Obj _3517640_37 = R[2];
-Obj _3518936_37 = PRIM_EQ(_3517639_37, getBinding(co, packageID, 121).name);
-if (True == _3518936_37) {
-R[1] = _3517640_37;
+Obj v__3518941_37= co->res;
+Obj v__3517645_37 = R[1];
+Obj v__3517646_37 = R[2];
+Obj v__3518942_37 = PRIM_EQ(v__3517645_37, getBinding(co, packageID, 121).name);
+if (True == v__3518942_37) {
+R[1] = v__3517646_37;
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj _3518939_37 = PRIM_EQ(_3517639_37, getBinding(co, packageID, 109).name);
-if (True == _3518939_37) {
-R[1] = _3517640_37;
+Obj v__3518945_37 = PRIM_EQ(v__3517645_37, getBinding(co, packageID, 109).name);
+if (True == v__3518945_37) {
+R[1] = v__3517646_37;
 saveCont(co, clofun92, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj _3518942_37 = PRIM_EQ(_3517639_37, getBinding(co, packageID, 118).name);
-if (True == _3518942_37) {
-R[1] = _3517640_37;
+Obj v__3518948_37 = PRIM_EQ(v__3517645_37, getBinding(co, packageID, 118).name);
+if (True == v__3518948_37) {
+R[1] = v__3517646_37;
 saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = _3517640_37;
+R[1] = v__3517646_37;
 saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3398,13 +3407,13 @@ return;
 }
 case 10:
 {
-Obj _3518934_37= co->res;
-Obj _3517639_37 = R[1];
-Obj _3517640_37 = R[2];
-R[1] = _3517639_37;
-R[2] = _3517640_37;
+Obj v__3518940_37= co->res;
+Obj v__3517645_37 = R[1];
+Obj v__3517646_37 = R[2];
+R[1] = v__3517645_37;
+R[2] = v__3517646_37;
 saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), _3518934_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3518940_37);
 return;
 }
 }
@@ -3414,165 +3423,165 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517616_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518882_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518882_37) {
-Obj _3518883_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518884_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518883_37);
-if (True == _3518884_37) {
-Obj _3518885_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518886_37 = PRIM_ISCONS(_3518885_37);
-if (True == _3518886_37) {
-Obj _3518887_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518888_37 = PRIM_CAR(_3518887_37);
-Obj _3517636_37 = _3518888_37;
-Obj _3518889_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518890_37 = PRIM_CDR(_3518889_37);
-Obj _3518891_37 = PRIM_ISCONS(_3518890_37);
-if (True == _3518891_37) {
-Obj _3518892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518893_37 = PRIM_CDR(_3518892_37);
-Obj _3518894_37 = PRIM_CAR(_3518893_37);
-Obj _3517637_37 = _3518894_37;
-Obj _3518895_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518896_37 = PRIM_CDR(_3518895_37);
-Obj _3518897_37 = PRIM_CDR(_3518896_37);
-Obj _3518898_37 = PRIM_ISCONS(_3518897_37);
-if (True == _3518898_37) {
-Obj _3518899_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518900_37 = PRIM_CDR(_3518899_37);
-Obj _3518901_37 = PRIM_CDR(_3518900_37);
-Obj _3518902_37 = PRIM_CAR(_3518901_37);
-Obj _3517638_37 = _3518902_37;
-Obj _3518903_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518904_37 = PRIM_CDR(_3518903_37);
-Obj _3518905_37 = PRIM_CDR(_3518904_37);
-Obj _3518906_37 = PRIM_CDR(_3518905_37);
-Obj _3518907_37 = PRIM_EQ(Nil, _3518906_37);
-if (True == _3518907_37) {
-R[1] = _3517636_37;
-R[2] = _3517637_37;
-R[3] = _3517638_37;
+Obj v__3517622_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518888_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518888_37) {
+Obj v__3518889_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518890_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518889_37);
+if (True == v__3518890_37) {
+Obj v__3518891_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518892_37 = PRIM_ISCONS(v__3518891_37);
+if (True == v__3518892_37) {
+Obj v__3518893_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518894_37 = PRIM_CAR(v__3518893_37);
+Obj v__3517642_37 = v__3518894_37;
+Obj v__3518895_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518896_37 = PRIM_CDR(v__3518895_37);
+Obj v__3518897_37 = PRIM_ISCONS(v__3518896_37);
+if (True == v__3518897_37) {
+Obj v__3518898_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518899_37 = PRIM_CDR(v__3518898_37);
+Obj v__3518900_37 = PRIM_CAR(v__3518899_37);
+Obj v__3517643_37 = v__3518900_37;
+Obj v__3518901_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518902_37 = PRIM_CDR(v__3518901_37);
+Obj v__3518903_37 = PRIM_CDR(v__3518902_37);
+Obj v__3518904_37 = PRIM_ISCONS(v__3518903_37);
+if (True == v__3518904_37) {
+Obj v__3518905_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518906_37 = PRIM_CDR(v__3518905_37);
+Obj v__3518907_37 = PRIM_CDR(v__3518906_37);
+Obj v__3518908_37 = PRIM_CAR(v__3518907_37);
+Obj v__3517644_37 = v__3518908_37;
+Obj v__3518909_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518910_37 = PRIM_CDR(v__3518909_37);
+Obj v__3518911_37 = PRIM_CDR(v__3518910_37);
+Obj v__3518912_37 = PRIM_CDR(v__3518911_37);
+Obj v__3518913_37 = PRIM_EQ(Nil, v__3518912_37);
+if (True == v__3518913_37) {
+R[1] = v__3517642_37;
+R[2] = v__3517643_37;
+R[3] = v__3517644_37;
 saveCont(co, clofun91, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517616_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517616_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517616_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517616_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517616_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517616_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518916_37= co->res;
+Obj v__3518922_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj _3518915_37= co->res;
-Obj _3517638_37 = R[1];
+Obj v__3518921_37= co->res;
+Obj v__3517644_37 = R[1];
 saveCont(co, clofun91, 1, R);
-coraCall2(co, _3518915_37, _3517638_37, closureRef(R[0], 4));
+coraCall2(co, v__3518921_37, v__3517644_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518914_37= co->res;
-Obj _3517638_37 = R[1];
-R[1] = _3517638_37;
+Obj v__3518920_37= co->res;
+Obj v__3517644_37 = R[1];
+R[1] = v__3517644_37;
 saveCont(co, clofun91, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518913_37= co->res;
-Obj _3517638_37 = R[1];
-R[1] = _3517638_37;
+Obj v__3518919_37= co->res;
+Obj v__3517644_37 = R[1];
+R[1] = v__3517644_37;
 saveCont(co, clofun91, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj _3518912_37= co->res;
-Obj _3517637_37 = R[1];
-Obj _3517638_37 = R[2];
-R[1] = _3517638_37;
+Obj v__3518918_37= co->res;
+Obj v__3517643_37 = R[1];
+Obj v__3517644_37 = R[2];
+R[1] = v__3517644_37;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, _3518912_37, _3517637_37, closureRef(R[0], 4));
+coraCall2(co, v__3518918_37, v__3517643_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj _3518911_37= co->res;
-Obj _3517637_37 = R[1];
-Obj _3517638_37 = R[2];
-R[1] = _3517637_37;
-R[2] = _3517638_37;
+Obj v__3518917_37= co->res;
+Obj v__3517643_37 = R[1];
+Obj v__3517644_37 = R[2];
+R[1] = v__3517643_37;
+R[2] = v__3517644_37;
 saveCont(co, clofun91, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj _3518910_37= co->res;
-Obj _3517637_37 = R[1];
-Obj _3517638_37 = R[2];
-R[1] = _3517637_37;
-R[2] = _3517638_37;
+Obj v__3518916_37= co->res;
+Obj v__3517643_37 = R[1];
+Obj v__3517644_37 = R[2];
+R[1] = v__3517643_37;
+R[2] = v__3517644_37;
 saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj _3518909_37= co->res;
-Obj _3517636_37 = R[1];
-Obj _3517637_37 = R[2];
-Obj _3517638_37 = R[3];
-R[1] = _3517637_37;
-R[2] = _3517638_37;
+Obj v__3518915_37= co->res;
+Obj v__3517642_37 = R[1];
+Obj v__3517643_37 = R[2];
+Obj v__3517644_37 = R[3];
+R[1] = v__3517643_37;
+R[2] = v__3517644_37;
 saveCont(co, clofun91, 7, R);
-coraCall2(co, _3518909_37, _3517636_37, closureRef(R[0], 4));
+coraCall2(co, v__3518915_37, v__3517642_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj _3518908_37= co->res;
-Obj _3517636_37 = R[1];
-Obj _3517637_37 = R[2];
-Obj _3517638_37 = R[3];
-R[1] = _3517636_37;
-R[2] = _3517637_37;
-R[3] = _3517638_37;
+Obj v__3518914_37= co->res;
+Obj v__3517642_37 = R[1];
+Obj v__3517643_37 = R[2];
+Obj v__3517644_37 = R[3];
+R[1] = v__3517642_37;
+R[2] = v__3517643_37;
+R[3] = v__3517644_37;
 saveCont(co, clofun91, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3584,97 +3593,97 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517617_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj _3518844_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518844_37) {
-Obj _3518845_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518846_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518845_37);
-if (True == _3518846_37) {
-Obj _3518847_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518848_37 = PRIM_ISCONS(_3518847_37);
-if (True == _3518848_37) {
-Obj _3518849_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518850_37 = PRIM_CAR(_3518849_37);
-Obj _3517632_37 = _3518850_37;
-Obj _3518851_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518852_37 = PRIM_CDR(_3518851_37);
-Obj _3518853_37 = PRIM_ISCONS(_3518852_37);
-if (True == _3518853_37) {
-Obj _3518854_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518855_37 = PRIM_CDR(_3518854_37);
-Obj _3518856_37 = PRIM_CAR(_3518855_37);
-Obj _3517633_37 = _3518856_37;
-Obj _3518857_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518858_37 = PRIM_CDR(_3518857_37);
-Obj _3518859_37 = PRIM_CDR(_3518858_37);
-Obj _3518860_37 = PRIM_ISCONS(_3518859_37);
-if (True == _3518860_37) {
-Obj _3518861_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518862_37 = PRIM_CDR(_3518861_37);
-Obj _3518863_37 = PRIM_CDR(_3518862_37);
-Obj _3518864_37 = PRIM_CAR(_3518863_37);
-Obj _3517634_37 = _3518864_37;
-Obj _3518865_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518866_37 = PRIM_CDR(_3518865_37);
-Obj _3518867_37 = PRIM_CDR(_3518866_37);
-Obj _3518868_37 = PRIM_CDR(_3518867_37);
-Obj _3517635_37 = _3518868_37;
-R[1] = _3517634_37;
-R[2] = _3517632_37;
-R[3] = _3517633_37;
-R[4] = _3517635_37;
+Obj v__3517623_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3518850_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518850_37) {
+Obj v__3518851_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518852_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518851_37);
+if (True == v__3518852_37) {
+Obj v__3518853_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518854_37 = PRIM_ISCONS(v__3518853_37);
+if (True == v__3518854_37) {
+Obj v__3518855_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518856_37 = PRIM_CAR(v__3518855_37);
+Obj v__3517638_37 = v__3518856_37;
+Obj v__3518857_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518858_37 = PRIM_CDR(v__3518857_37);
+Obj v__3518859_37 = PRIM_ISCONS(v__3518858_37);
+if (True == v__3518859_37) {
+Obj v__3518860_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518861_37 = PRIM_CDR(v__3518860_37);
+Obj v__3518862_37 = PRIM_CAR(v__3518861_37);
+Obj v__3517639_37 = v__3518862_37;
+Obj v__3518863_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518864_37 = PRIM_CDR(v__3518863_37);
+Obj v__3518865_37 = PRIM_CDR(v__3518864_37);
+Obj v__3518866_37 = PRIM_ISCONS(v__3518865_37);
+if (True == v__3518866_37) {
+Obj v__3518867_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518868_37 = PRIM_CDR(v__3518867_37);
+Obj v__3518869_37 = PRIM_CDR(v__3518868_37);
+Obj v__3518870_37 = PRIM_CAR(v__3518869_37);
+Obj v__3517640_37 = v__3518870_37;
+Obj v__3518871_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518872_37 = PRIM_CDR(v__3518871_37);
+Obj v__3518873_37 = PRIM_CDR(v__3518872_37);
+Obj v__3518874_37 = PRIM_CDR(v__3518873_37);
+Obj v__3517641_37 = v__3518874_37;
+R[1] = v__3517640_37;
+R[2] = v__3517638_37;
+R[3] = v__3517639_37;
+R[4] = v__3517641_37;
 saveCont(co, clofun90, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517617_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517617_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517617_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517617_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517617_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518881_37= co->res;
+Obj v__3518887_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj _3518880_37= co->res;
-Obj _3517635_37 = R[1];
+Obj v__3518886_37= co->res;
+Obj v__3517641_37 = R[1];
 saveCont(co, clofun90, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517635_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517641_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj _3518878_37= co->res;
-Obj _3517635_37 = R[1];
-Obj _3518879_37 = primNot(_3518878_37);
-if (True == _3518879_37) {
-R[1] = _3517635_37;
+Obj v__3518884_37= co->res;
+Obj v__3517641_37 = R[1];
+Obj v__3518885_37 = primNot(v__3518884_37);
+if (True == v__3518885_37) {
+R[1] = v__3517641_37;
 saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3687,98 +3696,98 @@ return;
 }
 case 4:
 {
-Obj _3518877_37= co->res;
-Obj _3517635_37 = R[1];
-R[1] = _3517635_37;
+Obj v__3518883_37= co->res;
+Obj v__3517641_37 = R[1];
+R[1] = v__3517641_37;
 saveCont(co, clofun90, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517635_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517641_37);
 return;
 }
 case 5:
 {
-Obj _3518876_37= co->res;
-Obj _3517635_37 = R[1];
-R[1] = _3517635_37;
+Obj v__3518882_37= co->res;
+Obj v__3517641_37 = R[1];
+R[1] = v__3517641_37;
 saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3518876_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3518882_37);
 return;
 }
 case 6:
 {
-Obj _3518875_37= co->res;
-Obj _3517635_37 = R[1];
-R[1] = _3517635_37;
+Obj v__3518881_37= co->res;
+Obj v__3517641_37 = R[1];
+R[1] = v__3517641_37;
 saveCont(co, clofun90, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517635_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517641_37);
 return;
 }
 case 7:
 {
-Obj _3518874_37= co->res;
-Obj _3517635_37 = R[1];
-R[1] = _3517635_37;
+Obj v__3518880_37= co->res;
+Obj v__3517641_37 = R[1];
+R[1] = v__3517641_37;
 saveCont(co, clofun90, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj _3518873_37= co->res;
-Obj _3517633_37 = R[1];
-Obj _3517635_37 = R[2];
-R[1] = _3517635_37;
+Obj v__3518879_37= co->res;
+Obj v__3517639_37 = R[1];
+Obj v__3517641_37 = R[2];
+R[1] = v__3517641_37;
 saveCont(co, clofun90, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517633_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517639_37);
 return;
 }
 case 9:
 {
-Obj _3518872_37= co->res;
-Obj _3517633_37 = R[1];
-Obj _3517635_37 = R[2];
-R[1] = _3517633_37;
-R[2] = _3517635_37;
+Obj v__3518878_37= co->res;
+Obj v__3517639_37 = R[1];
+Obj v__3517641_37 = R[2];
+R[1] = v__3517639_37;
+R[2] = v__3517641_37;
 saveCont(co, clofun90, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj _3518871_37= co->res;
-Obj _3517632_37 = R[1];
-Obj _3517633_37 = R[2];
-Obj _3517635_37 = R[3];
-R[1] = _3517633_37;
-R[2] = _3517635_37;
+Obj v__3518877_37= co->res;
+Obj v__3517638_37 = R[1];
+Obj v__3517639_37 = R[2];
+Obj v__3517641_37 = R[3];
+R[1] = v__3517639_37;
+R[2] = v__3517641_37;
 saveCont(co, clofun90, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), _3517632_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3517638_37);
 return;
 }
 case 11:
 {
-Obj _3518870_37= co->res;
-Obj _3517632_37 = R[1];
-Obj _3517633_37 = R[2];
-Obj _3517635_37 = R[3];
-R[1] = _3517632_37;
-R[2] = _3517633_37;
-R[3] = _3517635_37;
+Obj v__3518876_37= co->res;
+Obj v__3517638_37 = R[1];
+Obj v__3517639_37 = R[2];
+Obj v__3517641_37 = R[3];
+R[1] = v__3517638_37;
+R[2] = v__3517639_37;
+R[3] = v__3517641_37;
 saveCont(co, clofun90, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj _3518869_37= co->res;
-Obj _3517634_37 = R[1];
-Obj _3517632_37 = R[2];
-Obj _3517633_37 = R[3];
-Obj _3517635_37 = R[4];
-R[1] = _3517632_37;
-R[2] = _3517633_37;
-R[3] = _3517635_37;
+Obj v__3518875_37= co->res;
+Obj v__3517640_37 = R[1];
+Obj v__3517638_37 = R[2];
+Obj v__3517639_37 = R[3];
+Obj v__3517641_37 = R[4];
+R[1] = v__3517638_37;
+R[2] = v__3517639_37;
+R[3] = v__3517641_37;
 saveCont(co, clofun90, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517634_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517640_37);
 return;
 }
 }
@@ -3788,96 +3797,96 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517618_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj _3518823_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518823_37) {
-Obj _3518824_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518825_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518824_37);
-if (True == _3518825_37) {
-Obj _3518826_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518827_37 = PRIM_ISCONS(_3518826_37);
-if (True == _3518827_37) {
-Obj _3518828_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518829_37 = PRIM_CAR(_3518828_37);
-Obj _3517630_37 = _3518829_37;
-Obj _3518830_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518831_37 = PRIM_CDR(_3518830_37);
-Obj _3518832_37 = PRIM_ISCONS(_3518831_37);
-if (True == _3518832_37) {
-Obj _3518833_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518834_37 = PRIM_CDR(_3518833_37);
-Obj _3518835_37 = PRIM_CAR(_3518834_37);
-Obj _3517631_37 = _3518835_37;
-Obj _3518836_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518837_37 = PRIM_CDR(_3518836_37);
-Obj _3518838_37 = PRIM_CDR(_3518837_37);
-Obj _3518839_37 = PRIM_EQ(Nil, _3518838_37);
-if (True == _3518839_37) {
-R[1] = _3517630_37;
-R[2] = _3517631_37;
+Obj v__3517624_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3518829_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518829_37) {
+Obj v__3518830_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518831_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518830_37);
+if (True == v__3518831_37) {
+Obj v__3518832_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518833_37 = PRIM_ISCONS(v__3518832_37);
+if (True == v__3518833_37) {
+Obj v__3518834_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518835_37 = PRIM_CAR(v__3518834_37);
+Obj v__3517636_37 = v__3518835_37;
+Obj v__3518836_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518837_37 = PRIM_CDR(v__3518836_37);
+Obj v__3518838_37 = PRIM_ISCONS(v__3518837_37);
+if (True == v__3518838_37) {
+Obj v__3518839_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518840_37 = PRIM_CDR(v__3518839_37);
+Obj v__3518841_37 = PRIM_CAR(v__3518840_37);
+Obj v__3517637_37 = v__3518841_37;
+Obj v__3518842_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518843_37 = PRIM_CDR(v__3518842_37);
+Obj v__3518844_37 = PRIM_CDR(v__3518843_37);
+Obj v__3518845_37 = PRIM_EQ(Nil, v__3518844_37);
+if (True == v__3518845_37) {
+R[1] = v__3517636_37;
+R[2] = v__3517637_37;
 saveCont(co, clofun89, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517618_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517618_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517618_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517618_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517618_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518843_37= co->res;
-Obj _3517631_37 = R[1];
+Obj v__3518849_37= co->res;
+Obj v__3517637_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, _3518843_37, _3517631_37, closureRef(R[0], 5));
+coraCall2(co, v__3518849_37, v__3517637_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj _3518842_37= co->res;
-Obj _3517631_37 = R[1];
-R[1] = _3517631_37;
+Obj v__3518848_37= co->res;
+Obj v__3517637_37 = R[1];
+R[1] = v__3517637_37;
 saveCont(co, clofun89, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518841_37= co->res;
-Obj _3517631_37 = R[1];
-R[1] = _3517631_37;
+Obj v__3518847_37= co->res;
+Obj v__3517637_37 = R[1];
+R[1] = v__3517637_37;
 saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj _3518840_37= co->res;
-Obj _3517630_37 = R[1];
-Obj _3517631_37 = R[2];
-R[1] = _3517631_37;
+Obj v__3518846_37= co->res;
+Obj v__3517636_37 = R[1];
+Obj v__3517637_37 = R[2];
+R[1] = v__3517637_37;
 saveCont(co, clofun89, 3, R);
-coraCall2(co, _3518840_37, _3517630_37, closureRef(R[0], 5));
+coraCall2(co, v__3518846_37, v__3517636_37, closureRef(R[0], 5));
 return;
 }
 }
@@ -3887,74 +3896,74 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517619_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518809_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518809_37) {
-Obj _3518810_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518811_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3518810_37);
-if (True == _3518811_37) {
-Obj _3518812_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518813_37 = PRIM_ISCONS(_3518812_37);
-if (True == _3518813_37) {
-Obj _3518814_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518815_37 = PRIM_CAR(_3518814_37);
-Obj _3517629_37 = _3518815_37;
-Obj _3518816_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518817_37 = PRIM_CDR(_3518816_37);
-Obj _3518818_37 = PRIM_EQ(Nil, _3518817_37);
-if (True == _3518818_37) {
-R[1] = _3517629_37;
+Obj v__3517625_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518815_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518815_37) {
+Obj v__3518816_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518817_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518816_37);
+if (True == v__3518817_37) {
+Obj v__3518818_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518819_37 = PRIM_ISCONS(v__3518818_37);
+if (True == v__3518819_37) {
+Obj v__3518820_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518821_37 = PRIM_CAR(v__3518820_37);
+Obj v__3517635_37 = v__3518821_37;
+Obj v__3518822_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518823_37 = PRIM_CDR(v__3518822_37);
+Obj v__3518824_37 = PRIM_EQ(Nil, v__3518823_37);
+if (True == v__3518824_37) {
+R[1] = v__3517635_37;
 saveCont(co, clofun88, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517619_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517619_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517619_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517619_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518822_37= co->res;
+Obj v__3518828_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3518821_37= co->res;
+Obj v__3518827_37= co->res;
 saveCont(co, clofun88, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj _3518820_37= co->res;
-Obj _3517629_37 = R[1];
+Obj v__3518826_37= co->res;
+Obj v__3517635_37 = R[1];
 saveCont(co, clofun88, 2, R);
-coraCall2(co, _3518820_37, _3517629_37, closureRef(R[0], 4));
+coraCall2(co, v__3518826_37, v__3517635_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj _3518819_37= co->res;
-Obj _3517629_37 = R[1];
-R[1] = _3517629_37;
+Obj v__3518825_37= co->res;
+Obj v__3517635_37 = R[1];
+R[1] = v__3517635_37;
 saveCont(co, clofun88, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3966,67 +3975,67 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517620_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518796_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == _3518796_37) {
-Obj _3518797_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj _3518798_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518797_37);
-if (True == _3518798_37) {
-Obj _3518799_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518800_37 = PRIM_ISCONS(_3518799_37);
-if (True == _3518800_37) {
-Obj _3518801_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518802_37 = PRIM_CAR(_3518801_37);
-Obj _3517628_37 = _3518802_37;
-Obj _3518803_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj _3518804_37 = PRIM_CDR(_3518803_37);
-Obj _3518805_37 = PRIM_EQ(Nil, _3518804_37);
-if (True == _3518805_37) {
-R[1] = _3517628_37;
+Obj v__3517626_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518802_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518802_37) {
+Obj v__3518803_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518804_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518803_37);
+if (True == v__3518804_37) {
+Obj v__3518805_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518806_37 = PRIM_ISCONS(v__3518805_37);
+if (True == v__3518806_37) {
+Obj v__3518807_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518808_37 = PRIM_CAR(v__3518807_37);
+Obj v__3517634_37 = v__3518808_37;
+Obj v__3518809_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518810_37 = PRIM_CDR(v__3518809_37);
+Obj v__3518811_37 = PRIM_EQ(Nil, v__3518810_37);
+if (True == v__3518811_37) {
+R[1] = v__3517634_37;
 saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517620_37);
+coraCall0(co, v__3517626_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517620_37);
+coraCall0(co, v__3517626_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517620_37);
+coraCall0(co, v__3517626_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517620_37);
+coraCall0(co, v__3517626_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518808_37= co->res;
+Obj v__3518814_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3518807_37= co->res;
-Obj _3517628_37 = R[1];
+Obj v__3518813_37= co->res;
+Obj v__3517634_37 = R[1];
 saveCont(co, clofun87, 1, R);
-coraCall2(co, _3518807_37, _3517628_37, closureRef(R[0], 4));
+coraCall2(co, v__3518813_37, v__3517634_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518806_37= co->res;
-Obj _3517628_37 = R[1];
-R[1] = _3517628_37;
+Obj v__3518812_37= co->res;
+Obj v__3517634_37 = R[1];
+R[1] = v__3517634_37;
 saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -4038,129 +4047,129 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517621_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj _3518772_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518772_37) {
-Obj _3518773_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518774_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518773_37);
-if (True == _3518774_37) {
-Obj _3518775_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518776_37 = PRIM_ISCONS(_3518775_37);
-if (True == _3518776_37) {
-Obj _3518777_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518778_37 = PRIM_CAR(_3518777_37);
-Obj _3517625_37 = _3518778_37;
-Obj _3518779_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518780_37 = PRIM_CDR(_3518779_37);
-Obj _3518781_37 = PRIM_ISCONS(_3518780_37);
-if (True == _3518781_37) {
-Obj _3518782_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518783_37 = PRIM_CDR(_3518782_37);
-Obj _3518784_37 = PRIM_CAR(_3518783_37);
-Obj _3517626_37 = _3518784_37;
-Obj _3518785_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518786_37 = PRIM_CDR(_3518785_37);
-Obj _3518787_37 = PRIM_CDR(_3518786_37);
-Obj _3517627_37 = _3518787_37;
-R[1] = _3517626_37;
-R[2] = _3517625_37;
+Obj v__3517627_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518778_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518778_37) {
+Obj v__3518779_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518780_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518779_37);
+if (True == v__3518780_37) {
+Obj v__3518781_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518782_37 = PRIM_ISCONS(v__3518781_37);
+if (True == v__3518782_37) {
+Obj v__3518783_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518784_37 = PRIM_CAR(v__3518783_37);
+Obj v__3517631_37 = v__3518784_37;
+Obj v__3518785_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518786_37 = PRIM_CDR(v__3518785_37);
+Obj v__3518787_37 = PRIM_ISCONS(v__3518786_37);
+if (True == v__3518787_37) {
+Obj v__3518788_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518789_37 = PRIM_CDR(v__3518788_37);
+Obj v__3518790_37 = PRIM_CAR(v__3518789_37);
+Obj v__3517632_37 = v__3518790_37;
+Obj v__3518791_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518792_37 = PRIM_CDR(v__3518791_37);
+Obj v__3518793_37 = PRIM_CDR(v__3518792_37);
+Obj v__3517633_37 = v__3518793_37;
+R[1] = v__3517632_37;
+R[2] = v__3517631_37;
 saveCont(co, clofun86, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), _3517627_37};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517633_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517621_37);
+coraCall0(co, v__3517627_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517621_37);
+coraCall0(co, v__3517627_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517621_37);
+coraCall0(co, v__3517627_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517621_37);
+coraCall0(co, v__3517627_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518795_37= co->res;
+Obj v__3518801_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj _3518794_37= co->res;
-Obj _3517625_37 = R[1];
+Obj v__3518800_37= co->res;
+Obj v__3517631_37 = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, _3518794_37, _3517625_37, closureRef(R[0], 4));
+coraCall2(co, v__3518800_37, v__3517631_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj _3518793_37= co->res;
-Obj _3517625_37 = R[1];
-R[1] = _3517625_37;
+Obj v__3518799_37= co->res;
+Obj v__3517631_37 = R[1];
+R[1] = v__3517631_37;
 saveCont(co, clofun86, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj _3518792_37= co->res;
-Obj _3517625_37 = R[1];
-R[1] = _3517625_37;
+Obj v__3518798_37= co->res;
+Obj v__3517631_37 = R[1];
+R[1] = v__3517631_37;
 saveCont(co, clofun86, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj _3518791_37= co->res;
-Obj _3517626_37 = R[1];
-Obj _3517625_37 = R[2];
-R[1] = _3517625_37;
+Obj v__3518797_37= co->res;
+Obj v__3517632_37 = R[1];
+Obj v__3517631_37 = R[2];
+R[1] = v__3517631_37;
 saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517626_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517632_37);
 return;
 }
 case 6:
 {
-Obj _3518790_37= co->res;
-Obj _3517626_37 = R[1];
-Obj _3517625_37 = R[2];
-R[1] = _3517626_37;
-R[2] = _3517625_37;
+Obj v__3518796_37= co->res;
+Obj v__3517632_37 = R[1];
+Obj v__3517631_37 = R[2];
+R[1] = v__3517632_37;
+R[2] = v__3517631_37;
 saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj _3518789_37= co->res;
-Obj _3517626_37 = R[1];
-Obj _3517625_37 = R[2];
-R[1] = _3517626_37;
-R[2] = _3517625_37;
+Obj v__3518795_37= co->res;
+Obj v__3517632_37 = R[1];
+Obj v__3517631_37 = R[2];
+R[1] = v__3517632_37;
+R[2] = v__3517631_37;
 saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj _3518788_37= co->res;
-Obj _3517626_37 = R[1];
-Obj _3517625_37 = R[2];
-R[1] = _3517626_37;
-R[2] = _3517625_37;
+Obj v__3518794_37= co->res;
+Obj v__3517632_37 = R[1];
+Obj v__3517631_37 = R[2];
+R[1] = v__3517632_37;
+R[2] = v__3517631_37;
 saveCont(co, clofun86, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4172,16 +4181,16 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518749_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518749_37) {
-Obj _3518750_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517622_37 = _3518750_37;
-Obj _3518751_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517623_37 = _3518751_37;
-R[1] = _3517622_37;
-R[2] = _3517623_37;
+Obj v__3518755_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518755_37) {
+Obj v__3518756_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517628_37 = v__3518756_37;
+Obj v__3518757_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517629_37 = v__3518757_37;
+R[1] = v__3517628_37;
+R[2] = v__3517629_37;
 saveCont(co, clofun85, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517629_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4191,134 +4200,134 @@ return;
 }
 case 1:
 {
-Obj _3518763_37= co->res;
+Obj v__3518769_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj _3518762_37= co->res;
-Obj _3517624_37 = R[1];
+Obj v__3518768_37= co->res;
+Obj v__3517630_37 = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517624_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517630_37);
 return;
 }
 case 3:
 {
-Obj _3518761_37= co->res;
-Obj _3517624_37 = R[1];
-R[1] = _3517624_37;
+Obj v__3518767_37= co->res;
+Obj v__3517630_37 = R[1];
+R[1] = v__3517630_37;
 saveCont(co, clofun85, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj _3518760_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-R[1] = _3517624_37;
+Obj v__3518766_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+R[1] = v__3517630_37;
 saveCont(co, clofun85, 3, R);
-coraCall2(co, _3518760_37, _3517622_37, closureRef(R[0], 4));
+coraCall2(co, v__3518766_37, v__3517628_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj _3518759_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
+Obj v__3518765_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
 saveCont(co, clofun85, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj _3518758_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
+Obj v__3518764_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
 saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj _3518757_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
+Obj v__3518763_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
 saveCont(co, clofun85, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj _3518756_37= co->res;
-Obj _3517623_37 = R[1];
-Obj _3517622_37 = R[2];
-Obj _3517624_37 = R[3];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
+Obj v__3518762_37= co->res;
+Obj v__3517629_37 = R[1];
+Obj v__3517628_37 = R[2];
+Obj v__3517630_37 = R[3];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
 saveCont(co, clofun85, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517623_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517629_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj _3518755_37= co->res;
-Obj _3517623_37 = R[1];
-Obj _3517622_37 = R[2];
-Obj _3517624_37 = R[3];
-R[1] = _3517623_37;
-R[2] = _3517622_37;
-R[3] = _3517624_37;
+Obj v__3518761_37= co->res;
+Obj v__3517629_37 = R[1];
+Obj v__3517628_37 = R[2];
+Obj v__3517630_37 = R[3];
+R[1] = v__3517629_37;
+R[2] = v__3517628_37;
+R[3] = v__3517630_37;
 saveCont(co, clofun85, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj _3518754_37= co->res;
-Obj _3517623_37 = R[1];
-Obj _3517622_37 = R[2];
-Obj _3517624_37 = R[3];
-R[1] = _3517623_37;
-R[2] = _3517622_37;
-R[3] = _3517624_37;
+Obj v__3518760_37= co->res;
+Obj v__3517629_37 = R[1];
+Obj v__3517628_37 = R[2];
+Obj v__3517630_37 = R[3];
+R[1] = v__3517629_37;
+R[2] = v__3517628_37;
+R[3] = v__3517630_37;
 saveCont(co, clofun85, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517624_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517630_37);
 return;
 }
 case 11:
 {
-Obj _3518771_37= co->res;
+Obj v__3518777_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj _3518770_37= co->res;
-Obj _3517623_37 = R[1];
+Obj v__3518776_37= co->res;
+Obj v__3517629_37 = R[1];
 saveCont(co, clofun85, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), _3517623_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517629_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj _3518768_37= co->res;
-Obj _3517624_37 = R[1];
-Obj _3517623_37 = R[2];
-Obj _3518769_37 = PRIM_GT(_3517624_37, MAKE_NUMBER(0));
-if (True == _3518769_37) {
-R[1] = _3517623_37;
+Obj v__3518774_37= co->res;
+Obj v__3517630_37 = R[1];
+Obj v__3517629_37 = R[2];
+Obj v__3518775_37 = PRIM_GT(v__3517630_37, MAKE_NUMBER(0));
+if (True == v__3518775_37) {
+R[1] = v__3517629_37;
 saveCont(co, clofun85, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4331,73 +4340,73 @@ return;
 }
 case 14:
 {
-Obj _3518767_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-Obj _3517623_37 = R[3];
-R[1] = _3517624_37;
-R[2] = _3517623_37;
+Obj v__3518773_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+Obj v__3517629_37 = R[3];
+R[1] = v__3517630_37;
+R[2] = v__3517629_37;
 saveCont(co, clofun85, 13, R);
-coraCall2(co, _3518767_37, _3517622_37, closureRef(R[0], 4));
+coraCall2(co, v__3518773_37, v__3517628_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj _3518766_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-Obj _3517623_37 = R[3];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
-R[3] = _3517623_37;
+Obj v__3518772_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+Obj v__3517629_37 = R[3];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
+R[3] = v__3517629_37;
 saveCont(co, clofun85, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj _3518765_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-Obj _3517623_37 = R[3];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
-R[3] = _3517623_37;
+Obj v__3518771_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+Obj v__3517629_37 = R[3];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
+R[3] = v__3517629_37;
 saveCont(co, clofun85, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj _3518764_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517624_37 = R[2];
-Obj _3517623_37 = R[3];
-R[1] = _3517622_37;
-R[2] = _3517624_37;
-R[3] = _3517623_37;
+Obj v__3518770_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+Obj v__3517629_37 = R[3];
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
+R[3] = v__3517629_37;
 saveCont(co, clofun85, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), _3517624_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517630_37);
 return;
 }
 case 18:
 {
-Obj _3518752_37= co->res;
-Obj _3517622_37 = R[1];
-Obj _3517623_37 = R[2];
-Obj _3517624_37 = _3518752_37;
-Obj _3518753_37 = PRIM_GT(_3517624_37, MAKE_NUMBER(4));
-if (True == _3518753_37) {
-R[1] = _3517623_37;
-R[2] = _3517622_37;
-R[3] = _3517624_37;
+Obj v__3518758_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517629_37 = R[2];
+Obj v__3517630_37 = v__3518758_37;
+Obj v__3518759_37 = PRIM_GT(v__3517630_37, MAKE_NUMBER(4));
+if (True == v__3518759_37) {
+R[1] = v__3517629_37;
+R[2] = v__3517628_37;
+R[3] = v__3517630_37;
 saveCont(co, clofun85, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = _3517622_37;
-R[2] = _3517624_37;
-R[3] = _3517623_37;
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
+R[3] = v__3517629_37;
 saveCont(co, clofun85, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4410,13 +4419,13 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun83, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun83, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4426,57 +4435,57 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun83, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj _3518744_37= co->res;
-Obj acc = R[1];
-Obj _3518745_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518745_37);
+Obj v__3518750_37= co->res;
+Obj v_acc = R[1];
+Obj v__3518751_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518751_37);
 return;
 }
 case 2:
 {
-Obj _3518743_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3518749_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun83, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj _3518742_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3518748_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun83, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj _3518741_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3518747_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun83, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj _3518740_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v__3518746_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun83, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
@@ -4487,13 +4496,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj globals = R[1];
-Obj self = R[2];
-Obj env = R[3];
-Obj w = R[4];
-Obj ls = R[5];
+Obj v_globals = R[1];
+Obj v_self = R[2];
+Obj v_env = R[3];
+Obj v_w = R[4];
+Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun81, 2, 4, globals, self, env, w), MAKE_NUMBER(1), ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun81, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
@@ -4503,62 +4512,62 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj v = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v_acc = R[1];
+Obj v_v = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun81, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj _3518737_37= co->res;
-Obj acc = R[1];
-Obj _3518738_37 = PRIM_ADD(acc, MAKE_NUMBER(1));
-coraReturn(co, _3518738_37);
+Obj v__3518743_37= co->res;
+Obj v_acc = R[1];
+Obj v__3518744_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518744_37);
 return;
 }
 case 2:
 {
-Obj _3518736_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3518742_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun81, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj _3518735_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = acc;
+Obj v__3518741_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_acc;
 saveCont(co, clofun81, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj _3518734_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v__3518740_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun81, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj _3518733_37= co->res;
-Obj v = R[1];
-Obj acc = R[2];
-R[1] = v;
-R[2] = acc;
+Obj v__3518739_37= co->res;
+Obj v_v = R[1];
+Obj v_acc = R[2];
+R[1] = v_v;
+R[2] = v_acc;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
@@ -4568,10 +4577,10 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
+Obj v_sym = R[1];
+Obj v_globals = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), sym, globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v_sym, v_globals);
 return;
 }
 }
@@ -4581,36 +4590,36 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj idx = R[1];
-Obj sym = R[2];
-Obj globals = R[3];
-R[1] = idx;
-R[2] = globals;
-R[3] = sym;
+Obj v_idx = R[1];
+Obj v_sym = R[2];
+Obj v_globals = R[3];
+R[1] = v_idx;
+R[2] = v_globals;
+R[3] = v_sym;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518726_37= co->res;
-Obj idx = R[1];
-Obj globals = R[2];
-Obj sym = R[3];
-if (True == _3518726_37) {
+Obj v__3518732_37= co->res;
+Obj v_idx = R[1];
+Obj v_globals = R[2];
+Obj v_sym = R[3];
+if (True == v__3518732_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3518727_37 = PRIM_CAR(globals);
-Obj _3518728_37 = PRIM_EQ(sym, _3518727_37);
-if (True == _3518728_37) {
-coraReturn(co, idx);
+Obj v__3518733_37 = PRIM_CAR(v_globals);
+Obj v__3518734_37 = PRIM_EQ(v_sym, v__3518733_37);
+if (True == v__3518734_37) {
+coraReturn(co, v_idx);
 return;
 } else {
-Obj _3518729_37 = PRIM_ADD(idx, MAKE_NUMBER(1));
-Obj _3518730_37 = PRIM_CDR(globals);
+Obj v__3518735_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v__3518736_37 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), _3518729_37, sym, _3518730_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3518735_37, v_sym, v__3518736_37);
 return;
 }
 }
@@ -4622,41 +4631,41 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj sym = R[1];
-Obj globals = R[2];
-R[1] = sym;
-R[2] = globals;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+R[1] = v_sym;
+R[2] = v_globals;
 saveCont(co, clofun78, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
 return;
 }
 case 1:
 {
-Obj _3518722_37= co->res;
-Obj sym = R[1];
-Obj _3517609_37 = R[2];
-Obj globals = R[3];
-if (True == _3518722_37) {
+Obj v__3518728_37= co->res;
+Obj v_sym = R[1];
+Obj v__3517615_37 = R[2];
+Obj v_globals = R[3];
+if (True == v__3518728_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518723_37 = makeCons(co->gc, sym, _3517609_37);
-Obj _3518724_37 = primSet(co, globals, _3518723_37);
-coraReturn(co, _3518724_37);
+Obj v__3518729_37 = makeCons(co->gc, v_sym, v__3517615_37);
+Obj v__3518730_37 = primSet(co, v_globals, v__3518729_37);
+coraReturn(co, v__3518730_37);
 return;
 }
 }
 case 2:
 {
-Obj _3518721_37= co->res;
-Obj sym = R[1];
-Obj globals = R[2];
-Obj _3517609_37 = _3518721_37;
-R[1] = sym;
-R[2] = _3517609_37;
-R[3] = globals;
+Obj v__3518727_37= co->res;
+Obj v_sym = R[1];
+Obj v_globals = R[2];
+Obj v__3517615_37 = v__3518727_37;
+R[1] = v_sym;
+R[2] = v__3517615_37;
+R[3] = v_globals;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), sym, _3517609_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_sym, v__3517615_37);
 return;
 }
 }
@@ -4666,26 +4675,26 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj k = R[2];
-Obj _3518714_37 = primGenSym(co);
-Obj _3517608_37 = _3518714_37;
-R[1] = x;
-R[2] = _3517608_37;
+Obj v_x = R[1];
+Obj v_k = R[2];
+Obj v__3518720_37 = primGenSym(co);
+Obj v__3517614_37 = v__3518720_37;
+R[1] = v_x;
+R[2] = v__3517614_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, k, _3517608_37);
+coraCall1(co, v_k, v__3517614_37);
 return;
 }
 case 1:
 {
-Obj _3518715_37= co->res;
-Obj x = R[1];
-Obj _3517608_37 = R[2];
-Obj _3518716_37 = makeCons(co->gc, _3518715_37, Nil);
-Obj _3518717_37 = makeCons(co->gc, x, _3518716_37);
-Obj _3518718_37 = makeCons(co->gc, _3517608_37, _3518717_37);
-Obj _3518719_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518718_37);
-coraReturn(co, _3518719_37);
+Obj v__3518721_37= co->res;
+Obj v_x = R[1];
+Obj v__3517614_37 = R[2];
+Obj v__3518722_37 = makeCons(co->gc, v__3518721_37, Nil);
+Obj v__3518723_37 = makeCons(co->gc, v_x, v__3518722_37);
+Obj v__3518724_37 = makeCons(co->gc, v__3517614_37, v__3518723_37);
+Obj v__3518725_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518724_37);
+coraReturn(co, v__3518725_37);
 return;
 }
 }
@@ -4695,52 +4704,52 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v = R[1];
-Obj val = R[2];
-R[1] = val;
-R[2] = v;
+Obj v_v = R[1];
+Obj v_val = R[2];
+R[1] = v_val;
+R[2] = v_v;
 saveCont(co, clofun76, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj _3518712_37= co->res;
-Obj v = R[1];
-Obj _3517607_37 = R[2];
+Obj v__3518718_37= co->res;
+Obj v_v = R[1];
+Obj v__3517613_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(1), _3517607_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v__3517613_37);
 return;
 }
 case 2:
 {
-Obj _3518707_37= co->res;
-Obj val = R[1];
-Obj _3517605_37 = R[2];
-Obj v = R[3];
-Obj _3517606_37 = _3518707_37;
-Obj _3518708_37 = makeCons(co->gc, val, Nil);
-Obj _3518709_37 = makeCons(co->gc, _3517605_37, _3518708_37);
-Obj _3518710_37 = makeCons(co->gc, _3518709_37, _3517606_37);
-Obj _3517607_37 = _3518710_37;
-Obj _3518711_37 = PRIM_ADD(_3517605_37, MAKE_NUMBER(1));
-R[1] = v;
-R[2] = _3517607_37;
+Obj v__3518713_37= co->res;
+Obj v_val = R[1];
+Obj v__3517611_37 = R[2];
+Obj v_v = R[3];
+Obj v__3517612_37 = v__3518713_37;
+Obj v__3518714_37 = makeCons(co->gc, v_val, Nil);
+Obj v__3518715_37 = makeCons(co->gc, v__3517611_37, v__3518714_37);
+Obj v__3518716_37 = makeCons(co->gc, v__3518715_37, v__3517612_37);
+Obj v__3517613_37 = v__3518716_37;
+Obj v__3518717_37 = PRIM_ADD(v__3517611_37, MAKE_NUMBER(1));
+R[1] = v_v;
+R[2] = v__3517613_37;
 saveCont(co, clofun76, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v, MAKE_NUMBER(0), _3518711_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v__3518717_37);
 return;
 }
 case 3:
 {
-Obj _3518706_37= co->res;
-Obj val = R[1];
-Obj v = R[2];
-Obj _3517605_37 = _3518706_37;
-R[1] = val;
-R[2] = _3517605_37;
-R[3] = v;
+Obj v__3518712_37= co->res;
+Obj v_val = R[1];
+Obj v_v = R[2];
+Obj v__3517611_37 = v__3518712_37;
+R[1] = v_val;
+R[2] = v__3517611_37;
+R[3] = v_v;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4750,195 +4759,195 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517382_37 = R[1];
-Obj _3517383_37 = R[2];
-Obj _3517597_37 = makeNative(co->gc, 1, clofun74, 0, 2, _3517382_37, _3517383_37);
-Obj _3518657_37 = PRIM_ISCONS(_3517383_37);
-if (True == _3518657_37) {
-Obj _3518658_37 = PRIM_CAR(_3517383_37);
-Obj _3518659_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518658_37);
-if (True == _3518659_37) {
-Obj _3518660_37 = PRIM_CDR(_3517383_37);
-Obj _3518661_37 = PRIM_ISCONS(_3518660_37);
-if (True == _3518661_37) {
-Obj _3518662_37 = PRIM_CDR(_3517383_37);
-Obj _3518663_37 = PRIM_CAR(_3518662_37);
-Obj _3518664_37 = PRIM_ISCONS(_3518663_37);
-if (True == _3518664_37) {
-Obj _3518665_37 = PRIM_CDR(_3517383_37);
-Obj _3518666_37 = PRIM_CAR(_3518665_37);
-Obj _3518667_37 = PRIM_CAR(_3518666_37);
-Obj _3518668_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518667_37);
-if (True == _3518668_37) {
-Obj _3518669_37 = PRIM_CDR(_3517383_37);
-Obj _3518670_37 = PRIM_CAR(_3518669_37);
-Obj _3518671_37 = PRIM_CDR(_3518670_37);
-Obj _3518672_37 = PRIM_ISCONS(_3518671_37);
-if (True == _3518672_37) {
-Obj _3518673_37 = PRIM_CDR(_3517383_37);
-Obj _3518674_37 = PRIM_CAR(_3518673_37);
-Obj _3518675_37 = PRIM_CDR(_3518674_37);
-Obj _3518676_37 = PRIM_CAR(_3518675_37);
-Obj _3517598_37 = _3518676_37;
-Obj _3518677_37 = PRIM_CDR(_3517383_37);
-Obj _3518678_37 = PRIM_CAR(_3518677_37);
-Obj _3518679_37 = PRIM_CDR(_3518678_37);
-Obj _3518680_37 = PRIM_CDR(_3518679_37);
-Obj _3518681_37 = PRIM_ISCONS(_3518680_37);
-if (True == _3518681_37) {
-Obj _3518682_37 = PRIM_CDR(_3517383_37);
-Obj _3518683_37 = PRIM_CAR(_3518682_37);
-Obj _3518684_37 = PRIM_CDR(_3518683_37);
-Obj _3518685_37 = PRIM_CDR(_3518684_37);
-Obj _3518686_37 = PRIM_CAR(_3518685_37);
-Obj _3517599_37 = _3518686_37;
-Obj _3518687_37 = PRIM_CDR(_3517383_37);
-Obj _3518688_37 = PRIM_CAR(_3518687_37);
-Obj _3518689_37 = PRIM_CDR(_3518688_37);
-Obj _3518690_37 = PRIM_CDR(_3518689_37);
-Obj _3518691_37 = PRIM_CDR(_3518690_37);
-Obj _3518692_37 = PRIM_EQ(Nil, _3518691_37);
-if (True == _3518692_37) {
-Obj _3518693_37 = PRIM_CDR(_3517383_37);
-Obj _3518694_37 = PRIM_CDR(_3518693_37);
-Obj _3517600_37 = _3518694_37;
-R[1] = _3517382_37;
-R[2] = _3517598_37;
-R[3] = _3517600_37;
+Obj v__3517388_37 = R[1];
+Obj v__3517389_37 = R[2];
+Obj v__3517603_37 = makeNative(co->gc, 1, clofun74, 0, 2, v__3517388_37, v__3517389_37);
+Obj v__3518663_37 = PRIM_ISCONS(v__3517389_37);
+if (True == v__3518663_37) {
+Obj v__3518664_37 = PRIM_CAR(v__3517389_37);
+Obj v__3518665_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518664_37);
+if (True == v__3518665_37) {
+Obj v__3518666_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518667_37 = PRIM_ISCONS(v__3518666_37);
+if (True == v__3518667_37) {
+Obj v__3518668_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518669_37 = PRIM_CAR(v__3518668_37);
+Obj v__3518670_37 = PRIM_ISCONS(v__3518669_37);
+if (True == v__3518670_37) {
+Obj v__3518671_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518672_37 = PRIM_CAR(v__3518671_37);
+Obj v__3518673_37 = PRIM_CAR(v__3518672_37);
+Obj v__3518674_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518673_37);
+if (True == v__3518674_37) {
+Obj v__3518675_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518676_37 = PRIM_CAR(v__3518675_37);
+Obj v__3518677_37 = PRIM_CDR(v__3518676_37);
+Obj v__3518678_37 = PRIM_ISCONS(v__3518677_37);
+if (True == v__3518678_37) {
+Obj v__3518679_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518680_37 = PRIM_CAR(v__3518679_37);
+Obj v__3518681_37 = PRIM_CDR(v__3518680_37);
+Obj v__3518682_37 = PRIM_CAR(v__3518681_37);
+Obj v__3517604_37 = v__3518682_37;
+Obj v__3518683_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518684_37 = PRIM_CAR(v__3518683_37);
+Obj v__3518685_37 = PRIM_CDR(v__3518684_37);
+Obj v__3518686_37 = PRIM_CDR(v__3518685_37);
+Obj v__3518687_37 = PRIM_ISCONS(v__3518686_37);
+if (True == v__3518687_37) {
+Obj v__3518688_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518689_37 = PRIM_CAR(v__3518688_37);
+Obj v__3518690_37 = PRIM_CDR(v__3518689_37);
+Obj v__3518691_37 = PRIM_CDR(v__3518690_37);
+Obj v__3518692_37 = PRIM_CAR(v__3518691_37);
+Obj v__3517605_37 = v__3518692_37;
+Obj v__3518693_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518694_37 = PRIM_CAR(v__3518693_37);
+Obj v__3518695_37 = PRIM_CDR(v__3518694_37);
+Obj v__3518696_37 = PRIM_CDR(v__3518695_37);
+Obj v__3518697_37 = PRIM_CDR(v__3518696_37);
+Obj v__3518698_37 = PRIM_EQ(Nil, v__3518697_37);
+if (True == v__3518698_37) {
+Obj v__3518699_37 = PRIM_CDR(v__3517389_37);
+Obj v__3518700_37 = PRIM_CDR(v__3518699_37);
+Obj v__3517606_37 = v__3518700_37;
+R[1] = v__3517388_37;
+R[2] = v__3517604_37;
+R[3] = v__3517606_37;
 saveCont(co, clofun75, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), _3517382_37, _3517599_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517388_37, v__3517605_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517597_37);
+coraCall0(co, v__3517603_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518700_37= co->res;
-Obj _3517604_37 = R[1];
-Obj _3517600_37 = R[2];
-Obj _3517602_37 = R[3];
-Obj _3518701_37 = makeCons(co->gc, _3517604_37, _3517600_37);
-Obj _3518702_37 = makeCons(co->gc, _3518700_37, _3518701_37);
-Obj _3518703_37 = makeCons(co->gc, _3517602_37, _3518702_37);
-Obj _3518704_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518703_37);
-coraReturn(co, _3518704_37);
+Obj v__3518706_37= co->res;
+Obj v__3517610_37 = R[1];
+Obj v__3517606_37 = R[2];
+Obj v__3517608_37 = R[3];
+Obj v__3518707_37 = makeCons(co->gc, v__3517610_37, v__3517606_37);
+Obj v__3518708_37 = makeCons(co->gc, v__3518706_37, v__3518707_37);
+Obj v__3518709_37 = makeCons(co->gc, v__3517608_37, v__3518708_37);
+Obj v__3518710_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518709_37);
+coraReturn(co, v__3518710_37);
 return;
 }
 case 2:
 {
-Obj _3518699_37= co->res;
-Obj _3517598_37 = R[1];
-Obj _3517604_37 = R[2];
-Obj _3517600_37 = R[3];
-Obj _3517602_37 = R[4];
-R[1] = _3517604_37;
-R[2] = _3517600_37;
-R[3] = _3517602_37;
+Obj v__3518705_37= co->res;
+Obj v__3517604_37 = R[1];
+Obj v__3517610_37 = R[2];
+Obj v__3517606_37 = R[3];
+Obj v__3517608_37 = R[4];
+R[1] = v__3517610_37;
+R[2] = v__3517606_37;
+R[3] = v__3517608_37;
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517598_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517604_37);
 return;
 }
 case 3:
 {
-Obj _3518698_37= co->res;
-Obj _3517382_37 = R[1];
-Obj _3517603_37 = R[2];
-Obj _3517598_37 = R[3];
-Obj _3517600_37 = R[4];
-Obj _3517602_37 = R[5];
-Obj _3517604_37 = _3518698_37;
-R[1] = _3517598_37;
-R[2] = _3517604_37;
-R[3] = _3517600_37;
-R[4] = _3517602_37;
+Obj v__3518704_37= co->res;
+Obj v__3517388_37 = R[1];
+Obj v__3517609_37 = R[2];
+Obj v__3517604_37 = R[3];
+Obj v__3517606_37 = R[4];
+Obj v__3517608_37 = R[5];
+Obj v__3517610_37 = v__3518704_37;
+R[1] = v__3517604_37;
+R[2] = v__3517610_37;
+R[3] = v__3517606_37;
+R[4] = v__3517608_37;
 saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), _3517382_37, _3517603_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517388_37, v__3517609_37);
 return;
 }
 case 4:
 {
-Obj _3518697_37= co->res;
-Obj _3517382_37 = R[1];
-Obj _3517598_37 = R[2];
-Obj _3517600_37 = R[3];
-Obj _3517602_37 = R[4];
-Obj _3517603_37 = _3518697_37;
-R[1] = _3517382_37;
-R[2] = _3517603_37;
-R[3] = _3517598_37;
-R[4] = _3517600_37;
-R[5] = _3517602_37;
+Obj v__3518703_37= co->res;
+Obj v__3517388_37 = R[1];
+Obj v__3517604_37 = R[2];
+Obj v__3517606_37 = R[3];
+Obj v__3517608_37 = R[4];
+Obj v__3517609_37 = v__3518703_37;
+R[1] = v__3517388_37;
+R[2] = v__3517609_37;
+R[3] = v__3517604_37;
+R[4] = v__3517606_37;
+R[5] = v__3517608_37;
 saveCont(co, clofun75, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), _3517603_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3517609_37);
 return;
 }
 case 5:
 {
-Obj _3518696_37= co->res;
-Obj _3517601_37 = R[1];
-Obj _3517382_37 = R[2];
-Obj _3517598_37 = R[3];
-Obj _3517600_37 = R[4];
-Obj _3517602_37 = _3518696_37;
-R[1] = _3517382_37;
-R[2] = _3517598_37;
-R[3] = _3517600_37;
-R[4] = _3517602_37;
+Obj v__3518702_37= co->res;
+Obj v__3517607_37 = R[1];
+Obj v__3517388_37 = R[2];
+Obj v__3517604_37 = R[3];
+Obj v__3517606_37 = R[4];
+Obj v__3517608_37 = v__3518702_37;
+R[1] = v__3517388_37;
+R[2] = v__3517604_37;
+R[3] = v__3517606_37;
+R[4] = v__3517608_37;
 saveCont(co, clofun75, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), _3517598_37, _3517601_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517604_37, v__3517607_37);
 return;
 }
 case 6:
 {
-Obj _3518695_37= co->res;
-Obj _3517382_37 = R[1];
-Obj _3517598_37 = R[2];
-Obj _3517600_37 = R[3];
-Obj _3517601_37 = _3518695_37;
-R[1] = _3517601_37;
-R[2] = _3517382_37;
-R[3] = _3517598_37;
-R[4] = _3517600_37;
+Obj v__3518701_37= co->res;
+Obj v__3517388_37 = R[1];
+Obj v__3517604_37 = R[2];
+Obj v__3517606_37 = R[3];
+Obj v__3517607_37 = v__3518701_37;
+R[1] = v__3517607_37;
+R[2] = v__3517388_37;
+R[3] = v__3517604_37;
+R[4] = v__3517606_37;
 saveCont(co, clofun75, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), _3517382_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517388_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4948,8 +4957,8 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518655_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518655_37) {
+Obj v__3518661_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518661_37) {
 saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4960,9 +4969,9 @@ return;
 }
 case 1:
 {
-Obj _3518656_37= co->res;
+Obj v__3518662_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518656_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518662_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4972,38 +4981,38 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj lam = R[1];
-R[1] = lam;
+Obj v_lam = R[1];
+R[1] = v_lam;
 saveCont(co, clofun73, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
 return;
 }
 case 1:
 {
-Obj _3518653_37= co->res;
-Obj _3518652_37 = R[1];
+Obj v__3518659_37= co->res;
+Obj v__3518658_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), _3518652_37, _3518653_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), v__3518658_37, v__3518659_37);
 return;
 }
 case 2:
 {
-Obj _3518647_37= co->res;
-Obj lam = R[1];
-Obj _3517595_37 = _3518647_37;
-Obj _3518652_37 = PRIM_ADD(_3517595_37, MAKE_NUMBER(1));
-R[1] = _3518652_37;
+Obj v__3518653_37= co->res;
+Obj v_lam = R[1];
+Obj v__3517601_37 = v__3518653_37;
+Obj v__3518658_37 = PRIM_ADD(v__3517601_37, MAKE_NUMBER(1));
+R[1] = v__3518658_37;
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj _3518646_37= co->res;
-Obj lam = R[1];
-R[1] = lam;
+Obj v__3518652_37= co->res;
+Obj v_lam = R[1];
+R[1] = v_lam;
 saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518652_37);
 return;
 }
 }
@@ -5013,35 +5022,35 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj acc = R[1];
-Obj x = R[2];
-R[1] = acc;
+Obj v_acc = R[1];
+Obj v_x = R[2];
+R[1] = v_acc;
 saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
 return;
 }
 case 1:
 {
-Obj _3518649_37= co->res;
-Obj acc = R[1];
-Obj _3518650_37 = PRIM_ADD(_3518649_37, MAKE_NUMBER(1));
-Obj _3517596_37 = _3518650_37;
-Obj _3518651_37 = PRIM_GT(_3517596_37, acc);
-if (True == _3518651_37) {
-coraReturn(co, _3517596_37);
+Obj v__3518655_37= co->res;
+Obj v_acc = R[1];
+Obj v__3518656_37 = PRIM_ADD(v__3518655_37, MAKE_NUMBER(1));
+Obj v__3517602_37 = v__3518656_37;
+Obj v__3518657_37 = PRIM_GT(v__3517602_37, v_acc);
+if (True == v__3518657_37) {
+coraReturn(co, v__3517602_37);
 return;
 } else {
-coraReturn(co, acc);
+coraReturn(co, v_acc);
 return;
 }
 }
 case 2:
 {
-Obj _3518648_37= co->res;
-Obj acc = R[1];
-R[1] = acc;
+Obj v__3518654_37= co->res;
+Obj v_acc = R[1];
+R[1] = v_acc;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3518648_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518654_37);
 return;
 }
 }
@@ -5051,10 +5060,10 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj params = R[1];
-Obj body = R[2];
+Obj v_params = R[1];
+Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, v_params));
 return;
 }
 }
@@ -5064,21 +5073,21 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj body1 = R[1];
-Obj conts = R[2];
-R[1] = body1;
+Obj v_body1 = R[1];
+Obj v_conts = R[2];
+R[1] = v_body1;
 saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_conts);
 return;
 }
 case 1:
 {
-Obj _3518641_37= co->res;
-Obj body1 = R[1];
-Obj _3518642_37 = makeCons(co->gc, body1, _3518641_37);
-Obj _3518643_37 = makeCons(co->gc, closureRef(R[0], 0), _3518642_37);
-Obj _3518644_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518643_37);
-coraReturn(co, _3518644_37);
+Obj v__3518647_37= co->res;
+Obj v_body1 = R[1];
+Obj v__3518648_37 = makeCons(co->gc, v_body1, v__3518647_37);
+Obj v__3518649_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518648_37);
+Obj v__3518650_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518649_37);
+coraReturn(co, v__3518650_37);
 return;
 }
 }
@@ -5088,24 +5097,24 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517376_37 = R[1];
-Obj _3517377_37 = R[2];
-Obj _3517378_37 = R[3];
-Obj _3517379_37 = R[4];
-Obj _3518635_37 = PRIM_EQ(Nil, _3517376_37);
-if (True == _3518635_37) {
+Obj v__3517382_37 = R[1];
+Obj v__3517383_37 = R[2];
+Obj v__3517384_37 = R[3];
+Obj v__3517385_37 = R[4];
+Obj v__3518641_37 = PRIM_EQ(Nil, v__3517382_37);
+if (True == v__3518641_37) {
 co->ctx.sp = R;
-coraCall2(co, _3517379_37, _3517378_37, _3517377_37);
+coraCall2(co, v__3517385_37, v__3517384_37, v__3517383_37);
 return;
 } else {
-Obj _3518636_37 = PRIM_ISCONS(_3517376_37);
-if (True == _3518636_37) {
-Obj _3518637_37 = PRIM_CAR(_3517376_37);
-Obj _3517593_37 = _3518637_37;
-Obj _3518638_37 = PRIM_CDR(_3517376_37);
-Obj _3517594_37 = _3518638_37;
+Obj v__3518642_37 = PRIM_ISCONS(v__3517382_37);
+if (True == v__3518642_37) {
+Obj v__3518643_37 = PRIM_CAR(v__3517382_37);
+Obj v__3517599_37 = v__3518643_37;
+Obj v__3518644_37 = PRIM_CDR(v__3517382_37);
+Obj v__3517600_37 = v__3518644_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517593_37, _3517377_37, makeNative(co->gc, 3, clofun68, 2, 3, _3517594_37, _3517378_37, _3517379_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517599_37, v__3517383_37, makeNative(co->gc, 3, clofun68, 2, 3, v__3517600_37, v__3517384_37, v__3517385_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5121,10 +5130,10 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj f1 = R[1];
-Obj conts1 = R[2];
+Obj v_f1 = R[1];
+Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
@@ -5134,11 +5143,11 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj args1 = R[1];
-Obj conts2 = R[2];
-Obj _3518639_37 = makeCons(co->gc, closureRef(R[0], 1), args1);
+Obj v_args1 = R[1];
+Obj v_conts2 = R[2];
+Obj v__3518645_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3518639_37, conts2);
+coraCall2(co, closureRef(R[0], 0), v__3518645_37, v_conts2);
 return;
 }
 }
@@ -5148,33 +5157,33 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517370_37 = R[1];
-Obj _3517371_37 = R[2];
-Obj _3517372_37 = R[3];
-Obj _3517586_37 = makeNative(co->gc, 2, clofun65, 1, 3, _3517370_37, _3517371_37, _3517372_37);
-Obj _3518632_37 = primIsSymbol(_3517370_37);
-if (True == _3518632_37) {
+Obj v__3517376_37 = R[1];
+Obj v__3517377_37 = R[2];
+Obj v__3517378_37 = R[3];
+Obj v__3517592_37 = makeNative(co->gc, 2, clofun65, 1, 3, v__3517376_37, v__3517377_37, v__3517378_37);
+Obj v__3518638_37 = primIsSymbol(v__3517376_37);
+if (True == v__3518638_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517586_37, True);
+coraCall1(co, v__3517592_37, True);
 return;
 } else {
-R[1] = _3517586_37;
+R[1] = v__3517592_37;
 saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517370_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517376_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518633_37= co->res;
-Obj _3517586_37 = R[1];
-if (True == _3518633_37) {
+Obj v__3518639_37= co->res;
+Obj v__3517592_37 = R[1];
+if (True == v__3518639_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517586_37, True);
+coraCall1(co, v__3517592_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517586_37, False);
+coraCall1(co, v__3517592_37, False);
 return;
 }
 }
@@ -5185,63 +5194,63 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517585_37 = R[1];
-if (True == _3517585_37) {
+Obj v__3517591_37 = R[1];
+if (True == v__3517591_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517587_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3518608_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518608_37) {
-Obj _3518609_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518610_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518609_37);
-if (True == _3518610_37) {
-Obj _3518611_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518612_37 = PRIM_ISCONS(_3518611_37);
-if (True == _3518612_37) {
-Obj _3518613_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518614_37 = PRIM_CAR(_3518613_37);
-Obj _3517590_37 = _3518614_37;
-Obj _3518615_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518616_37 = PRIM_CDR(_3518615_37);
-Obj _3518617_37 = PRIM_ISCONS(_3518616_37);
-if (True == _3518617_37) {
-Obj _3518618_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518619_37 = PRIM_CDR(_3518618_37);
-Obj _3518620_37 = PRIM_CAR(_3518619_37);
-Obj _3517591_37 = _3518620_37;
-Obj _3518621_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518622_37 = PRIM_CDR(_3518621_37);
-Obj _3518623_37 = PRIM_CDR(_3518622_37);
-Obj _3518624_37 = PRIM_EQ(Nil, _3518623_37);
-if (True == _3518624_37) {
+Obj v__3517593_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518614_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518614_37) {
+Obj v__3518615_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518616_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518615_37);
+if (True == v__3518616_37) {
+Obj v__3518617_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518618_37 = PRIM_ISCONS(v__3518617_37);
+if (True == v__3518618_37) {
+Obj v__3518619_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518620_37 = PRIM_CAR(v__3518619_37);
+Obj v__3517596_37 = v__3518620_37;
+Obj v__3518621_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518622_37 = PRIM_CDR(v__3518621_37);
+Obj v__3518623_37 = PRIM_ISCONS(v__3518622_37);
+if (True == v__3518623_37) {
+Obj v__3518624_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518625_37 = PRIM_CDR(v__3518624_37);
+Obj v__3518626_37 = PRIM_CAR(v__3518625_37);
+Obj v__3517597_37 = v__3518626_37;
+Obj v__3518627_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518628_37 = PRIM_CDR(v__3518627_37);
+Obj v__3518629_37 = PRIM_CDR(v__3518628_37);
+Obj v__3518630_37 = PRIM_EQ(Nil, v__3518629_37);
+if (True == v__3518630_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), _3517591_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), _3517590_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517597_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), v__3517596_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, v__3517593_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, v__3517593_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, v__3517593_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, v__3517593_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517587_37);
+coraCall0(co, v__3517593_37);
 return;
 }
 }
@@ -5253,40 +5262,40 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-R[1] = cont1;
-R[2] = conts1;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+R[1] = v_cont1;
+R[2] = v_conts1;
 saveCont(co, clofun64, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
 return;
 }
 case 1:
 {
-Obj _3518626_37= co->res;
-Obj _3517592_37 = R[1];
-Obj cont1 = R[2];
-Obj conts1 = R[3];
-Obj _3518627_37 = PRIM_ADD(_3518626_37, MAKE_NUMBER(1));
-Obj _3518628_37 = makeCons(co->gc, _3518627_37, _3517592_37);
-Obj _3518629_37 = makeCons(co->gc, closureRef(R[0], 1), _3518628_37);
-Obj _3518630_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518629_37);
-Obj _3518631_37 = makeCons(co->gc, cont1, conts1);
+Obj v__3518632_37= co->res;
+Obj v__3517598_37 = R[1];
+Obj v_cont1 = R[2];
+Obj v_conts1 = R[3];
+Obj v__3518633_37 = PRIM_ADD(v__3518632_37, MAKE_NUMBER(1));
+Obj v__3518634_37 = makeCons(co->gc, v__3518633_37, v__3517598_37);
+Obj v__3518635_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518634_37);
+Obj v__3518636_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518635_37);
+Obj v__3518637_37 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), _3518630_37, _3518631_37);
+coraCall2(co, closureRef(R[0], 0), v__3518636_37, v__3518637_37);
 return;
 }
 case 2:
 {
-Obj _3518625_37= co->res;
-Obj cont1 = R[1];
-Obj conts1 = R[2];
-Obj _3517592_37 = _3518625_37;
-R[1] = _3517592_37;
-R[2] = cont1;
-R[3] = conts1;
+Obj v__3518631_37= co->res;
+Obj v_cont1 = R[1];
+Obj v_conts1 = R[2];
+Obj v__3517598_37 = v__3518631_37;
+R[1] = v__3517598_37;
+R[2] = v_cont1;
+R[3] = v_conts1;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_conts1);
 return;
 }
 }
@@ -5296,15 +5305,15 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518604_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518604_37) {
-Obj _3518605_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517588_37 = _3518605_37;
-Obj _3518606_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517589_37 = _3518606_37;
-Obj _3518607_37 = makeCons(co->gc, _3517588_37, _3517589_37);
+Obj v__3518610_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518610_37) {
+Obj v__3518611_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517594_37 = v__3518611_37;
+Obj v__3518612_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517595_37 = v__3518612_37;
+Obj v__3518613_37 = makeCons(co->gc, v__3517594_37, v__3517595_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), _3518607_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3518613_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5319,90 +5328,90 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517362_37 = R[1];
-Obj _3517363_37 = R[2];
-R[1] = _3517363_37;
-R[2] = _3517362_37;
+Obj v__3517368_37 = R[1];
+Obj v__3517369_37 = R[2];
+R[1] = v__3517369_37;
+R[2] = v__3517368_37;
 saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517363_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517369_37);
 return;
 }
 case 1:
 {
-Obj _3518599_37= co->res;
-Obj _3517582_37 = R[1];
-Obj _3518600_37 = makeCons(co->gc, _3518599_37, Nil);
-Obj _3518601_37 = makeCons(co->gc, _3517582_37, _3518600_37);
-Obj _3518602_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518601_37);
-coraReturn(co, _3518602_37);
+Obj v__3518605_37= co->res;
+Obj v__3517588_37 = R[1];
+Obj v__3518606_37 = makeCons(co->gc, v__3518605_37, Nil);
+Obj v__3518607_37 = makeCons(co->gc, v__3517588_37, v__3518606_37);
+Obj v__3518608_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518607_37);
+coraReturn(co, v__3518608_37);
 return;
 }
 case 2:
 {
-Obj _3518527_37= co->res;
-Obj _3517363_37 = R[1];
-Obj _3517362_37 = R[2];
-if (True == _3518527_37) {
-coraReturn(co, _3517363_37);
-return;
-} else {
-Obj _3518528_37 = primIsSymbol(_3517363_37);
-if (True == _3518528_37) {
-coraReturn(co, _3517363_37);
-return;
-} else {
-Obj _3517571_37 = makeNative(co->gc, 4, clofun61, 0, 2, _3517363_37, _3517362_37);
-Obj _3518582_37 = PRIM_ISCONS(_3517363_37);
-if (True == _3518582_37) {
-Obj _3518583_37 = PRIM_CAR(_3517363_37);
-Obj _3518584_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518583_37);
-if (True == _3518584_37) {
-Obj _3518585_37 = PRIM_CDR(_3517363_37);
-Obj _3518586_37 = PRIM_ISCONS(_3518585_37);
-if (True == _3518586_37) {
-Obj _3518587_37 = PRIM_CDR(_3517363_37);
-Obj _3518588_37 = PRIM_CAR(_3518587_37);
-Obj _3517582_37 = _3518588_37;
-Obj _3518589_37 = PRIM_CDR(_3517363_37);
-Obj _3518590_37 = PRIM_CDR(_3518589_37);
-Obj _3518591_37 = PRIM_ISCONS(_3518590_37);
-if (True == _3518591_37) {
-Obj _3518592_37 = PRIM_CDR(_3517363_37);
-Obj _3518593_37 = PRIM_CDR(_3518592_37);
-Obj _3518594_37 = PRIM_CAR(_3518593_37);
-Obj _3517583_37 = _3518594_37;
-Obj _3518595_37 = PRIM_CDR(_3517363_37);
-Obj _3518596_37 = PRIM_CDR(_3518595_37);
-Obj _3518597_37 = PRIM_CDR(_3518596_37);
-Obj _3518598_37 = PRIM_EQ(Nil, _3518597_37);
-if (True == _3518598_37) {
-R[1] = _3517582_37;
+Obj v__3518533_37= co->res;
+Obj v__3517369_37 = R[1];
+Obj v__3517368_37 = R[2];
+if (True == v__3518533_37) {
+coraReturn(co, v__3517369_37);
+return;
+} else {
+Obj v__3518534_37 = primIsSymbol(v__3517369_37);
+if (True == v__3518534_37) {
+coraReturn(co, v__3517369_37);
+return;
+} else {
+Obj v__3517577_37 = makeNative(co->gc, 4, clofun61, 0, 2, v__3517369_37, v__3517368_37);
+Obj v__3518588_37 = PRIM_ISCONS(v__3517369_37);
+if (True == v__3518588_37) {
+Obj v__3518589_37 = PRIM_CAR(v__3517369_37);
+Obj v__3518590_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518589_37);
+if (True == v__3518590_37) {
+Obj v__3518591_37 = PRIM_CDR(v__3517369_37);
+Obj v__3518592_37 = PRIM_ISCONS(v__3518591_37);
+if (True == v__3518592_37) {
+Obj v__3518593_37 = PRIM_CDR(v__3517369_37);
+Obj v__3518594_37 = PRIM_CAR(v__3518593_37);
+Obj v__3517588_37 = v__3518594_37;
+Obj v__3518595_37 = PRIM_CDR(v__3517369_37);
+Obj v__3518596_37 = PRIM_CDR(v__3518595_37);
+Obj v__3518597_37 = PRIM_ISCONS(v__3518596_37);
+if (True == v__3518597_37) {
+Obj v__3518598_37 = PRIM_CDR(v__3517369_37);
+Obj v__3518599_37 = PRIM_CDR(v__3518598_37);
+Obj v__3518600_37 = PRIM_CAR(v__3518599_37);
+Obj v__3517589_37 = v__3518600_37;
+Obj v__3518601_37 = PRIM_CDR(v__3517369_37);
+Obj v__3518602_37 = PRIM_CDR(v__3518601_37);
+Obj v__3518603_37 = PRIM_CDR(v__3518602_37);
+Obj v__3518604_37 = PRIM_EQ(Nil, v__3518603_37);
+if (True == v__3518604_37) {
+R[1] = v__3517588_37;
 saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517362_37, _3517583_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517368_37, v__3517589_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517571_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517571_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517571_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517571_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517571_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 }
@@ -5415,121 +5424,121 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517572_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518557_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518557_37) {
-Obj _3518558_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518559_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518558_37);
-if (True == _3518559_37) {
-Obj _3518560_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518561_37 = PRIM_ISCONS(_3518560_37);
-if (True == _3518561_37) {
-Obj _3518562_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518563_37 = PRIM_CAR(_3518562_37);
-Obj _3517578_37 = _3518563_37;
-Obj _3518564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518565_37 = PRIM_CDR(_3518564_37);
-Obj _3518566_37 = PRIM_ISCONS(_3518565_37);
-if (True == _3518566_37) {
-Obj _3518567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518568_37 = PRIM_CDR(_3518567_37);
-Obj _3518569_37 = PRIM_CAR(_3518568_37);
-Obj _3517579_37 = _3518569_37;
-Obj _3518570_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518571_37 = PRIM_CDR(_3518570_37);
-Obj _3518572_37 = PRIM_CDR(_3518571_37);
-Obj _3518573_37 = PRIM_EQ(Nil, _3518572_37);
-if (True == _3518573_37) {
-R[1] = _3517579_37;
-R[2] = _3517578_37;
+Obj v__3517578_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518563_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518563_37) {
+Obj v__3518564_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518565_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518564_37);
+if (True == v__3518565_37) {
+Obj v__3518566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518567_37 = PRIM_ISCONS(v__3518566_37);
+if (True == v__3518567_37) {
+Obj v__3518568_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518569_37 = PRIM_CAR(v__3518568_37);
+Obj v__3517584_37 = v__3518569_37;
+Obj v__3518570_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518571_37 = PRIM_CDR(v__3518570_37);
+Obj v__3518572_37 = PRIM_ISCONS(v__3518571_37);
+if (True == v__3518572_37) {
+Obj v__3518573_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518574_37 = PRIM_CDR(v__3518573_37);
+Obj v__3518575_37 = PRIM_CAR(v__3518574_37);
+Obj v__3517585_37 = v__3518575_37;
+Obj v__3518576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518577_37 = PRIM_CDR(v__3518576_37);
+Obj v__3518578_37 = PRIM_CDR(v__3518577_37);
+Obj v__3518579_37 = PRIM_EQ(Nil, v__3518578_37);
+if (True == v__3518579_37) {
+R[1] = v__3517585_37;
+R[2] = v__3517584_37;
 saveCont(co, clofun61, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517579_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517585_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517572_37);
+coraCall0(co, v__3517578_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517572_37);
+coraCall0(co, v__3517578_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517572_37);
+coraCall0(co, v__3517578_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517572_37);
+coraCall0(co, v__3517578_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517572_37);
+coraCall0(co, v__3517578_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518578_37= co->res;
-Obj _3517581_37 = R[1];
-Obj _3517578_37 = R[2];
-Obj _3518579_37 = makeCons(co->gc, _3518578_37, _3517581_37);
-Obj _3518580_37 = makeCons(co->gc, _3517578_37, _3518579_37);
-Obj _3518581_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, _3518580_37);
-coraReturn(co, _3518581_37);
+Obj v__3518584_37= co->res;
+Obj v__3517587_37 = R[1];
+Obj v__3517584_37 = R[2];
+Obj v__3518585_37 = makeCons(co->gc, v__3518584_37, v__3517587_37);
+Obj v__3518586_37 = makeCons(co->gc, v__3517584_37, v__3518585_37);
+Obj v__3518587_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3518586_37);
+coraReturn(co, v__3518587_37);
 return;
 }
 case 2:
 {
-Obj _3518577_37= co->res;
-Obj _3517580_37 = R[1];
-Obj _3517579_37 = R[2];
-Obj _3517578_37 = R[3];
-Obj _3517581_37 = _3518577_37;
-R[1] = _3517581_37;
-R[2] = _3517578_37;
+Obj v__3518583_37= co->res;
+Obj v__3517586_37 = R[1];
+Obj v__3517585_37 = R[2];
+Obj v__3517584_37 = R[3];
+Obj v__3517587_37 = v__3518583_37;
+R[1] = v__3517587_37;
+R[2] = v__3517584_37;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), _3517580_37, _3517579_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517586_37, v__3517585_37);
 return;
 }
 case 3:
 {
-Obj _3518576_37= co->res;
-Obj _3517580_37 = R[1];
-Obj _3517579_37 = R[2];
-Obj _3517578_37 = R[3];
-R[1] = _3517580_37;
-R[2] = _3517579_37;
-R[3] = _3517578_37;
+Obj v__3518582_37= co->res;
+Obj v__3517586_37 = R[1];
+Obj v__3517585_37 = R[2];
+Obj v__3517584_37 = R[3];
+R[1] = v__3517586_37;
+R[2] = v__3517585_37;
+R[3] = v__3517584_37;
 saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518576_37, _3517580_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518582_37, v__3517586_37);
 return;
 }
 case 4:
 {
-Obj _3518575_37= co->res;
-Obj _3517579_37 = R[1];
-Obj _3517578_37 = R[2];
-Obj _3517580_37 = _3518575_37;
-R[1] = _3517580_37;
-R[2] = _3517579_37;
-R[3] = _3517578_37;
+Obj v__3518581_37= co->res;
+Obj v__3517585_37 = R[1];
+Obj v__3517584_37 = R[2];
+Obj v__3517586_37 = v__3518581_37;
+R[1] = v__3517586_37;
+R[2] = v__3517585_37;
+R[3] = v__3517584_37;
 saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj _3518574_37= co->res;
-Obj _3517579_37 = R[1];
-Obj _3517578_37 = R[2];
-R[1] = _3517579_37;
-R[2] = _3517578_37;
+Obj v__3518580_37= co->res;
+Obj v__3517585_37 = R[1];
+Obj v__3517584_37 = R[2];
+R[1] = v__3517585_37;
+R[2] = v__3517584_37;
 saveCont(co, clofun61, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518574_37, _3517578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518580_37, v__3517584_37);
 return;
 }
 }
@@ -5539,89 +5548,89 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517573_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518534_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518534_37) {
-Obj _3518535_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518536_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518535_37);
-if (True == _3518536_37) {
-Obj _3518537_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518538_37 = PRIM_ISCONS(_3518537_37);
-if (True == _3518538_37) {
-Obj _3518539_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518540_37 = PRIM_CAR(_3518539_37);
-Obj _3517576_37 = _3518540_37;
-Obj _3518541_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518542_37 = PRIM_CDR(_3518541_37);
-Obj _3518543_37 = PRIM_ISCONS(_3518542_37);
-if (True == _3518543_37) {
-Obj _3518544_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518545_37 = PRIM_CDR(_3518544_37);
-Obj _3518546_37 = PRIM_CAR(_3518545_37);
-Obj _3517577_37 = _3518546_37;
-Obj _3518547_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518548_37 = PRIM_CDR(_3518547_37);
-Obj _3518549_37 = PRIM_CDR(_3518548_37);
-Obj _3518550_37 = PRIM_EQ(Nil, _3518549_37);
-if (True == _3518550_37) {
-R[1] = _3517576_37;
-R[2] = _3517577_37;
+Obj v__3517579_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518540_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518540_37) {
+Obj v__3518541_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518542_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518541_37);
+if (True == v__3518542_37) {
+Obj v__3518543_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518544_37 = PRIM_ISCONS(v__3518543_37);
+if (True == v__3518544_37) {
+Obj v__3518545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518546_37 = PRIM_CAR(v__3518545_37);
+Obj v__3517582_37 = v__3518546_37;
+Obj v__3518547_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518548_37 = PRIM_CDR(v__3518547_37);
+Obj v__3518549_37 = PRIM_ISCONS(v__3518548_37);
+if (True == v__3518549_37) {
+Obj v__3518550_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518551_37 = PRIM_CDR(v__3518550_37);
+Obj v__3518552_37 = PRIM_CAR(v__3518551_37);
+Obj v__3517583_37 = v__3518552_37;
+Obj v__3518553_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518554_37 = PRIM_CDR(v__3518553_37);
+Obj v__3518555_37 = PRIM_CDR(v__3518554_37);
+Obj v__3518556_37 = PRIM_EQ(Nil, v__3518555_37);
+if (True == v__3518556_37) {
+R[1] = v__3517582_37;
+R[2] = v__3517583_37;
 saveCont(co, clofun60, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517573_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517573_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517573_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517573_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517573_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518553_37= co->res;
-Obj _3518552_37 = R[1];
-Obj _3518554_37 = makeCons(co->gc, _3518553_37, Nil);
-Obj _3518555_37 = makeCons(co->gc, _3518552_37, _3518554_37);
-Obj _3518556_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518555_37);
-coraReturn(co, _3518556_37);
+Obj v__3518559_37= co->res;
+Obj v__3518558_37 = R[1];
+Obj v__3518560_37 = makeCons(co->gc, v__3518559_37, Nil);
+Obj v__3518561_37 = makeCons(co->gc, v__3518558_37, v__3518560_37);
+Obj v__3518562_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518561_37);
+coraReturn(co, v__3518562_37);
 return;
 }
 case 2:
 {
-Obj _3518552_37= co->res;
-Obj _3517577_37 = R[1];
-R[1] = _3518552_37;
+Obj v__3518558_37= co->res;
+Obj v__3517583_37 = R[1];
+R[1] = v__3518558_37;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), _3517577_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3517583_37);
 return;
 }
 case 3:
 {
-Obj _3518551_37= co->res;
-Obj _3517576_37 = R[1];
-Obj _3517577_37 = R[2];
-R[1] = _3517577_37;
+Obj v__3518557_37= co->res;
+Obj v__3517582_37 = R[1];
+Obj v__3517583_37 = R[2];
+R[1] = v__3517583_37;
 saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518551_37, _3517576_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518557_37, v__3517582_37);
 return;
 }
 }
@@ -5631,14 +5640,14 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518529_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518529_37) {
-Obj _3518530_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517574_37 = _3518530_37;
-Obj _3518531_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517575_37 = _3518531_37;
-R[1] = _3517574_37;
-R[2] = _3517575_37;
+Obj v__3518535_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518535_37) {
+Obj v__3518536_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517580_37 = v__3518536_37;
+Obj v__3518537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517581_37 = v__3518537_37;
+R[1] = v__3517580_37;
+R[2] = v__3517581_37;
 saveCont(co, clofun59, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
@@ -5650,12 +5659,12 @@ return;
 }
 case 1:
 {
-Obj _3518532_37= co->res;
-Obj _3517574_37 = R[1];
-Obj _3517575_37 = R[2];
-Obj _3518533_37 = makeCons(co->gc, _3517574_37, _3517575_37);
+Obj v__3518538_37= co->res;
+Obj v__3517580_37 = R[1];
+Obj v__3517581_37 = R[2];
+Obj v__3518539_37 = makeCons(co->gc, v__3517580_37, v__3517581_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518532_37, _3518533_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518538_37, v__3518539_37);
 return;
 }
 }
@@ -5665,24 +5674,24 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517357_37 = R[1];
-Obj _3517358_37 = R[2];
-Obj _3517359_37 = R[3];
-Obj _3518504_37 = PRIM_EQ(Nil, _3517357_37);
-if (True == _3518504_37) {
-R[1] = _3517359_37;
+Obj v__3517363_37 = R[1];
+Obj v__3517364_37 = R[2];
+Obj v__3517365_37 = R[3];
+Obj v__3518510_37 = PRIM_EQ(Nil, v__3517363_37);
+if (True == v__3518510_37) {
+R[1] = v__3517365_37;
 saveCont(co, clofun58, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), _3517358_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517364_37);
 return;
 } else {
-Obj _3518522_37 = PRIM_ISCONS(_3517357_37);
-if (True == _3518522_37) {
-Obj _3518523_37 = PRIM_CAR(_3517357_37);
-Obj _3517569_37 = _3518523_37;
-Obj _3518524_37 = PRIM_CDR(_3517357_37);
-Obj _3517570_37 = _3518524_37;
+Obj v__3518528_37 = PRIM_ISCONS(v__3517363_37);
+if (True == v__3518528_37) {
+Obj v__3518529_37 = PRIM_CAR(v__3517363_37);
+Obj v__3517575_37 = v__3518529_37;
+Obj v__3518530_37 = PRIM_CDR(v__3517363_37);
+Obj v__3517576_37 = v__3518530_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517569_37, makeNative(co->gc, 2, clofun57, 1, 3, _3517570_37, _3517358_37, _3517359_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517575_37, makeNative(co->gc, 2, clofun57, 1, 3, v__3517576_37, v__3517364_37, v__3517365_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5693,46 +5702,46 @@ return;
 }
 case 1:
 {
-Obj _3518520_37= co->res;
-Obj _3517567_37 = R[1];
-Obj _3518521_37 = PRIM_EQ(_3518520_37, getBinding(co, packageID, 91).name);
-if (True == _3518521_37) {
+Obj v__3518526_37= co->res;
+Obj v__3517573_37 = R[1];
+Obj v__3518527_37 = PRIM_EQ(v__3518526_37, getBinding(co, packageID, 91).name);
+if (True == v__3518527_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517567_37, True);
+coraCall1(co, v__3517573_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517567_37, False);
+coraCall1(co, v__3517573_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3518519_37= co->res;
-Obj _3517564_37 = R[1];
-Obj _3517567_37 = R[2];
-if (True == _3518519_37) {
-R[1] = _3517567_37;
+Obj v__3518525_37= co->res;
+Obj v__3517570_37 = R[1];
+Obj v__3517573_37 = R[2];
+if (True == v__3518525_37) {
+R[1] = v__3517573_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), _3517564_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3517570_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517567_37, False);
+coraCall1(co, v__3517573_37, False);
 return;
 }
 }
 case 3:
 {
-Obj _3518505_37= co->res;
-Obj _3517359_37 = R[1];
-Obj _3517564_37 = _3518505_37;
-Obj _3517567_37 = makeNative(co->gc, 2, clofun56, 1, 2, _3517564_37, _3517359_37);
-Obj _3518518_37 = PRIM_CAR(_3517564_37);
-R[1] = _3517564_37;
-R[2] = _3517567_37;
+Obj v__3518511_37= co->res;
+Obj v__3517365_37 = R[1];
+Obj v__3517570_37 = v__3518511_37;
+Obj v__3517573_37 = makeNative(co->gc, 2, clofun56, 1, 2, v__3517570_37, v__3517365_37);
+Obj v__3518524_37 = PRIM_CAR(v__3517570_37);
+R[1] = v__3517570_37;
+R[2] = v__3517573_37;
 saveCont(co, clofun58, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), _3518518_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3518524_37);
 return;
 }
 }
@@ -5742,10 +5751,10 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj hd1 = R[1];
-Obj _3518525_37 = makeCons(co->gc, hd1, closureRef(R[0], 1));
+Obj v_hd1 = R[1];
+Obj v__3518531_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), _3518525_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3518531_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5755,40 +5764,40 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517566_37 = R[1];
-if (True == _3517566_37) {
+Obj v__3517572_37 = R[1];
+if (True == v__3517572_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3518506_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == _3518506_37) {
-Obj _3518507_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3518508_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, _3518507_37);
-coraReturn(co, _3518508_37);
+Obj v__3518512_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == v__3518512_37) {
+Obj v__3518513_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3518514_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518513_37);
+coraReturn(co, v__3518514_37);
 return;
 } else {
-Obj _3518509_37 = primGenSym(co);
-Obj _3517568_37 = _3518509_37;
-Obj _3518510_37 = makeCons(co->gc, _3517568_37, Nil);
-R[1] = _3518510_37;
+Obj v__3518515_37 = primGenSym(co);
+Obj v__3517574_37 = v__3518515_37;
+Obj v__3518516_37 = makeCons(co->gc, v__3517574_37, Nil);
+R[1] = v__3518516_37;
 saveCont(co, clofun56, 1, R);
-coraCall1(co, closureRef(R[0], 1), _3517568_37);
+coraCall1(co, closureRef(R[0], 1), v__3517574_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518511_37= co->res;
-Obj _3518510_37 = R[1];
-Obj _3518512_37 = makeCons(co->gc, _3518511_37, Nil);
-Obj _3518513_37 = makeCons(co->gc, _3518510_37, _3518512_37);
-Obj _3518514_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, _3518513_37);
-Obj _3518515_37 = makeCons(co->gc, _3518514_37, Nil);
-Obj _3518516_37 = makeCons(co->gc, closureRef(R[0], 0), _3518515_37);
-Obj _3518517_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, _3518516_37);
-coraReturn(co, _3518517_37);
+Obj v__3518517_37= co->res;
+Obj v__3518516_37 = R[1];
+Obj v__3518518_37 = makeCons(co->gc, v__3518517_37, Nil);
+Obj v__3518519_37 = makeCons(co->gc, v__3518516_37, v__3518518_37);
+Obj v__3518520_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518519_37);
+Obj v__3518521_37 = makeCons(co->gc, v__3518520_37, Nil);
+Obj v__3518522_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518521_37);
+Obj v__3518523_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518522_37);
+coraReturn(co, v__3518523_37);
 return;
 }
 }
@@ -5798,32 +5807,32 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517348_37 = R[1];
-Obj _3517349_37 = R[2];
-Obj _3517546_37 = makeNative(co->gc, 2, clofun54, 1, 2, _3517348_37, _3517349_37);
-Obj _3518501_37 = primIsSymbol(_3517348_37);
-if (True == _3518501_37) {
+Obj v__3517354_37 = R[1];
+Obj v__3517355_37 = R[2];
+Obj v__3517552_37 = makeNative(co->gc, 2, clofun54, 1, 2, v__3517354_37, v__3517355_37);
+Obj v__3518507_37 = primIsSymbol(v__3517354_37);
+if (True == v__3518507_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517546_37, True);
+coraCall1(co, v__3517552_37, True);
 return;
 } else {
-R[1] = _3517546_37;
+R[1] = v__3517552_37;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517348_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517354_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518502_37= co->res;
-Obj _3517546_37 = R[1];
-if (True == _3518502_37) {
+Obj v__3518508_37= co->res;
+Obj v__3517552_37 = R[1];
+if (True == v__3518508_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517546_37, True);
+coraCall1(co, v__3517552_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517546_37, False);
+coraCall1(co, v__3517552_37, False);
 return;
 }
 }
@@ -5834,8 +5843,8 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517545_37 = R[1];
-if (True == _3517545_37) {
+Obj v__3517551_37 = R[1];
+if (True == v__3517551_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5847,78 +5856,78 @@ return;
 }
 case 1:
 {
-Obj _3518367_37= co->res;
-if (True == _3518367_37) {
+Obj v__3518373_37= co->res;
+if (True == v__3518373_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj _3517547_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518469_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518469_37) {
-Obj _3518470_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518471_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518470_37);
-if (True == _3518471_37) {
-Obj _3518472_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518473_37 = PRIM_ISCONS(_3518472_37);
-if (True == _3518473_37) {
-Obj _3518474_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518475_37 = PRIM_CAR(_3518474_37);
-Obj _3517561_37 = _3518475_37;
-Obj _3518476_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518477_37 = PRIM_CDR(_3518476_37);
-Obj _3518478_37 = PRIM_ISCONS(_3518477_37);
-if (True == _3518478_37) {
-Obj _3518479_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518480_37 = PRIM_CDR(_3518479_37);
-Obj _3518481_37 = PRIM_CAR(_3518480_37);
-Obj _3517562_37 = _3518481_37;
-Obj _3518482_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518483_37 = PRIM_CDR(_3518482_37);
-Obj _3518484_37 = PRIM_CDR(_3518483_37);
-Obj _3518485_37 = PRIM_ISCONS(_3518484_37);
-if (True == _3518485_37) {
-Obj _3518486_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518487_37 = PRIM_CDR(_3518486_37);
-Obj _3518488_37 = PRIM_CDR(_3518487_37);
-Obj _3518489_37 = PRIM_CAR(_3518488_37);
-Obj _3517563_37 = _3518489_37;
-Obj _3518490_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518491_37 = PRIM_CDR(_3518490_37);
-Obj _3518492_37 = PRIM_CDR(_3518491_37);
-Obj _3518493_37 = PRIM_CDR(_3518492_37);
-Obj _3518494_37 = PRIM_EQ(Nil, _3518493_37);
-if (True == _3518494_37) {
+Obj v__3517553_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518475_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518475_37) {
+Obj v__3518476_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518477_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518476_37);
+if (True == v__3518477_37) {
+Obj v__3518478_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518479_37 = PRIM_ISCONS(v__3518478_37);
+if (True == v__3518479_37) {
+Obj v__3518480_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518481_37 = PRIM_CAR(v__3518480_37);
+Obj v__3517567_37 = v__3518481_37;
+Obj v__3518482_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518483_37 = PRIM_CDR(v__3518482_37);
+Obj v__3518484_37 = PRIM_ISCONS(v__3518483_37);
+if (True == v__3518484_37) {
+Obj v__3518485_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518486_37 = PRIM_CDR(v__3518485_37);
+Obj v__3518487_37 = PRIM_CAR(v__3518486_37);
+Obj v__3517568_37 = v__3518487_37;
+Obj v__3518488_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
+Obj v__3518490_37 = PRIM_CDR(v__3518489_37);
+Obj v__3518491_37 = PRIM_ISCONS(v__3518490_37);
+if (True == v__3518491_37) {
+Obj v__3518492_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518493_37 = PRIM_CDR(v__3518492_37);
+Obj v__3518494_37 = PRIM_CDR(v__3518493_37);
+Obj v__3518495_37 = PRIM_CAR(v__3518494_37);
+Obj v__3517569_37 = v__3518495_37;
+Obj v__3518496_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518497_37 = PRIM_CDR(v__3518496_37);
+Obj v__3518498_37 = PRIM_CDR(v__3518497_37);
+Obj v__3518499_37 = PRIM_CDR(v__3518498_37);
+Obj v__3518500_37 = PRIM_EQ(Nil, v__3518499_37);
+if (True == v__3518500_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517561_37, makeNative(co->gc, 3, clofun53, 1, 3, _3517562_37, _3517563_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517567_37, makeNative(co->gc, 3, clofun53, 1, 3, v__3517568_37, v__3517569_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517547_37);
+coraCall0(co, v__3517553_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517547_37);
+coraCall0(co, v__3517553_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517547_37);
+coraCall0(co, v__3517553_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517547_37);
+coraCall0(co, v__3517553_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517547_37);
+coraCall0(co, v__3517553_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517547_37);
+coraCall0(co, v__3517553_37);
 return;
 }
 }
@@ -5930,30 +5939,30 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-R[1] = ra;
+Obj v_ra = R[1];
+R[1] = v_ra;
 saveCont(co, clofun53, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3518496_37= co->res;
-Obj _3518495_37 = R[1];
-Obj ra = R[2];
-Obj _3518497_37 = makeCons(co->gc, _3518496_37, Nil);
-Obj _3518498_37 = makeCons(co->gc, _3518495_37, _3518497_37);
-Obj _3518499_37 = makeCons(co->gc, ra, _3518498_37);
-Obj _3518500_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3518499_37);
-coraReturn(co, _3518500_37);
+Obj v__3518502_37= co->res;
+Obj v__3518501_37 = R[1];
+Obj v_ra = R[2];
+Obj v__3518503_37 = makeCons(co->gc, v__3518502_37, Nil);
+Obj v__3518504_37 = makeCons(co->gc, v__3518501_37, v__3518503_37);
+Obj v__3518505_37 = makeCons(co->gc, v_ra, v__3518504_37);
+Obj v__3518506_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518505_37);
+coraReturn(co, v__3518506_37);
 return;
 }
 case 2:
 {
-Obj _3518495_37= co->res;
-Obj ra = R[1];
-R[1] = _3518495_37;
-R[2] = ra;
+Obj v__3518501_37= co->res;
+Obj v_ra = R[1];
+R[1] = v__3518501_37;
+R[2] = v_ra;
 saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
@@ -5965,57 +5974,57 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517548_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518447_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518447_37) {
-Obj _3518448_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518449_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518448_37);
-if (True == _3518449_37) {
-Obj _3518450_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518451_37 = PRIM_ISCONS(_3518450_37);
-if (True == _3518451_37) {
-Obj _3518452_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518453_37 = PRIM_CAR(_3518452_37);
-Obj _3517559_37 = _3518453_37;
-Obj _3518454_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518455_37 = PRIM_CDR(_3518454_37);
-Obj _3518456_37 = PRIM_ISCONS(_3518455_37);
-if (True == _3518456_37) {
-Obj _3518457_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518458_37 = PRIM_CDR(_3518457_37);
-Obj _3518459_37 = PRIM_CAR(_3518458_37);
-Obj _3517560_37 = _3518459_37;
-Obj _3518460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518461_37 = PRIM_CDR(_3518460_37);
-Obj _3518462_37 = PRIM_CDR(_3518461_37);
-Obj _3518463_37 = PRIM_EQ(Nil, _3518462_37);
-if (True == _3518463_37) {
+Obj v__3517554_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518453_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518453_37) {
+Obj v__3518454_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518455_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518454_37);
+if (True == v__3518455_37) {
+Obj v__3518456_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518457_37 = PRIM_ISCONS(v__3518456_37);
+if (True == v__3518457_37) {
+Obj v__3518458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518459_37 = PRIM_CAR(v__3518458_37);
+Obj v__3517565_37 = v__3518459_37;
+Obj v__3518460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518461_37 = PRIM_CDR(v__3518460_37);
+Obj v__3518462_37 = PRIM_ISCONS(v__3518461_37);
+if (True == v__3518462_37) {
+Obj v__3518463_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518464_37 = PRIM_CDR(v__3518463_37);
+Obj v__3518465_37 = PRIM_CAR(v__3518464_37);
+Obj v__3517566_37 = v__3518465_37;
+Obj v__3518466_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518467_37 = PRIM_CDR(v__3518466_37);
+Obj v__3518468_37 = PRIM_CDR(v__3518467_37);
+Obj v__3518469_37 = PRIM_EQ(Nil, v__3518468_37);
+if (True == v__3518469_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517559_37, makeNative(co->gc, 2, clofun51, 1, 2, _3517560_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517565_37, makeNative(co->gc, 2, clofun51, 1, 2, v__3517566_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517548_37);
+coraCall0(co, v__3517554_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517548_37);
+coraCall0(co, v__3517554_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517548_37);
+coraCall0(co, v__3517554_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517548_37);
+coraCall0(co, v__3517554_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517548_37);
+coraCall0(co, v__3517554_37);
 return;
 }
 }
@@ -6026,14 +6035,14 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj ra = R[1];
-Obj _3518464_37 = primIsSymbol(ra);
-if (True == _3518464_37) {
+Obj v_ra = R[1];
+Obj v__3518470_37 = primIsSymbol(v_ra);
+if (True == v__3518470_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = ra;
+R[1] = v_ra;
 saveCont(co, clofun51, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6041,12 +6050,12 @@ return;
 }
 case 1:
 {
-Obj _3518465_37= co->res;
-Obj ra = R[1];
-Obj _3518466_37 = makeCons(co->gc, _3518465_37, Nil);
-Obj _3518467_37 = makeCons(co->gc, ra, _3518466_37);
-Obj _3518468_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3518467_37);
-coraReturn(co, _3518468_37);
+Obj v__3518471_37= co->res;
+Obj v_ra = R[1];
+Obj v__3518472_37 = makeCons(co->gc, v__3518471_37, Nil);
+Obj v__3518473_37 = makeCons(co->gc, v_ra, v__3518472_37);
+Obj v__3518474_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518473_37);
+coraReturn(co, v__3518474_37);
 return;
 }
 }
@@ -6056,73 +6065,73 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517549_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518416_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518416_37) {
-Obj _3518417_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518418_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518417_37);
-if (True == _3518418_37) {
-Obj _3518419_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518420_37 = PRIM_ISCONS(_3518419_37);
-if (True == _3518420_37) {
-Obj _3518421_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518422_37 = PRIM_CAR(_3518421_37);
-Obj _3517556_37 = _3518422_37;
-Obj _3518423_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518424_37 = PRIM_CDR(_3518423_37);
-Obj _3518425_37 = PRIM_ISCONS(_3518424_37);
-if (True == _3518425_37) {
-Obj _3518426_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518427_37 = PRIM_CDR(_3518426_37);
-Obj _3518428_37 = PRIM_CAR(_3518427_37);
-Obj _3517557_37 = _3518428_37;
-Obj _3518429_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518430_37 = PRIM_CDR(_3518429_37);
-Obj _3518431_37 = PRIM_CDR(_3518430_37);
-Obj _3518432_37 = PRIM_ISCONS(_3518431_37);
-if (True == _3518432_37) {
-Obj _3518433_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518434_37 = PRIM_CDR(_3518433_37);
-Obj _3518435_37 = PRIM_CDR(_3518434_37);
-Obj _3518436_37 = PRIM_CAR(_3518435_37);
-Obj _3517558_37 = _3518436_37;
-Obj _3518437_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518438_37 = PRIM_CDR(_3518437_37);
-Obj _3518439_37 = PRIM_CDR(_3518438_37);
-Obj _3518440_37 = PRIM_CDR(_3518439_37);
-Obj _3518441_37 = PRIM_EQ(Nil, _3518440_37);
-if (True == _3518441_37) {
+Obj v__3517555_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518422_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518422_37) {
+Obj v__3518423_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518424_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518423_37);
+if (True == v__3518424_37) {
+Obj v__3518425_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518426_37 = PRIM_ISCONS(v__3518425_37);
+if (True == v__3518426_37) {
+Obj v__3518427_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518428_37 = PRIM_CAR(v__3518427_37);
+Obj v__3517562_37 = v__3518428_37;
+Obj v__3518429_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518430_37 = PRIM_CDR(v__3518429_37);
+Obj v__3518431_37 = PRIM_ISCONS(v__3518430_37);
+if (True == v__3518431_37) {
+Obj v__3518432_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518433_37 = PRIM_CDR(v__3518432_37);
+Obj v__3518434_37 = PRIM_CAR(v__3518433_37);
+Obj v__3517563_37 = v__3518434_37;
+Obj v__3518435_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518436_37 = PRIM_CDR(v__3518435_37);
+Obj v__3518437_37 = PRIM_CDR(v__3518436_37);
+Obj v__3518438_37 = PRIM_ISCONS(v__3518437_37);
+if (True == v__3518438_37) {
+Obj v__3518439_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518440_37 = PRIM_CDR(v__3518439_37);
+Obj v__3518441_37 = PRIM_CDR(v__3518440_37);
+Obj v__3518442_37 = PRIM_CAR(v__3518441_37);
+Obj v__3517564_37 = v__3518442_37;
+Obj v__3518443_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518444_37 = PRIM_CDR(v__3518443_37);
+Obj v__3518445_37 = PRIM_CDR(v__3518444_37);
+Obj v__3518446_37 = PRIM_CDR(v__3518445_37);
+Obj v__3518447_37 = PRIM_EQ(Nil, v__3518446_37);
+if (True == v__3518447_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517557_37, makeNative(co->gc, 2, clofun49, 1, 3, _3517556_37, _3517558_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517563_37, makeNative(co->gc, 2, clofun49, 1, 3, v__3517562_37, v__3517564_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517549_37);
+coraCall0(co, v__3517555_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517549_37);
+coraCall0(co, v__3517555_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517549_37);
+coraCall0(co, v__3517555_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517549_37);
+coraCall0(co, v__3517555_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517549_37);
+coraCall0(co, v__3517555_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517549_37);
+coraCall0(co, v__3517555_37);
 return;
 }
 }
@@ -6133,21 +6142,21 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj rb = R[1];
-R[1] = rb;
+Obj v_rb = R[1];
+R[1] = v_rb;
 saveCont(co, clofun49, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj _3518442_37= co->res;
-Obj rb = R[1];
-Obj _3518443_37 = makeCons(co->gc, _3518442_37, Nil);
-Obj _3518444_37 = makeCons(co->gc, rb, _3518443_37);
-Obj _3518445_37 = makeCons(co->gc, closureRef(R[0], 0), _3518444_37);
-Obj _3518446_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518445_37);
-coraReturn(co, _3518446_37);
+Obj v__3518448_37= co->res;
+Obj v_rb = R[1];
+Obj v__3518449_37 = makeCons(co->gc, v__3518448_37, Nil);
+Obj v__3518450_37 = makeCons(co->gc, v_rb, v__3518449_37);
+Obj v__3518451_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518450_37);
+Obj v__3518452_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518451_37);
+coraReturn(co, v__3518452_37);
 return;
 }
 }
@@ -6157,114 +6166,114 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517550_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518372_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518372_37) {
-Obj _3518373_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518374_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518373_37);
-if (True == _3518374_37) {
-Obj _3518375_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518376_37 = PRIM_ISCONS(_3518375_37);
-if (True == _3518376_37) {
-Obj _3518377_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518378_37 = PRIM_CAR(_3518377_37);
-Obj _3518379_37 = PRIM_ISCONS(_3518378_37);
-if (True == _3518379_37) {
-Obj _3518380_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518381_37 = PRIM_CAR(_3518380_37);
-Obj _3518382_37 = PRIM_CAR(_3518381_37);
-Obj _3518383_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518382_37);
-if (True == _3518383_37) {
-Obj _3518384_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518385_37 = PRIM_CAR(_3518384_37);
-Obj _3518386_37 = PRIM_CDR(_3518385_37);
-Obj _3518387_37 = PRIM_ISCONS(_3518386_37);
-if (True == _3518387_37) {
-Obj _3518388_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518389_37 = PRIM_CAR(_3518388_37);
-Obj _3518390_37 = PRIM_CDR(_3518389_37);
-Obj _3518391_37 = PRIM_CAR(_3518390_37);
-Obj _3517553_37 = _3518391_37;
-Obj _3518392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518393_37 = PRIM_CAR(_3518392_37);
-Obj _3518394_37 = PRIM_CDR(_3518393_37);
-Obj _3518395_37 = PRIM_CDR(_3518394_37);
-Obj _3518396_37 = PRIM_ISCONS(_3518395_37);
-if (True == _3518396_37) {
-Obj _3518397_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518398_37 = PRIM_CAR(_3518397_37);
-Obj _3518399_37 = PRIM_CDR(_3518398_37);
-Obj _3518400_37 = PRIM_CDR(_3518399_37);
-Obj _3518401_37 = PRIM_CAR(_3518400_37);
-Obj _3517554_37 = _3518401_37;
-Obj _3518402_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518403_37 = PRIM_CAR(_3518402_37);
-Obj _3518404_37 = PRIM_CDR(_3518403_37);
-Obj _3518405_37 = PRIM_CDR(_3518404_37);
-Obj _3518406_37 = PRIM_CDR(_3518405_37);
-Obj _3518407_37 = PRIM_EQ(Nil, _3518406_37);
-if (True == _3518407_37) {
-Obj _3518408_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518409_37 = PRIM_CDR(_3518408_37);
-Obj _3517555_37 = _3518409_37;
-R[1] = _3517553_37;
-R[2] = _3517555_37;
+Obj v__3517556_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518378_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518378_37) {
+Obj v__3518379_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518380_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518379_37);
+if (True == v__3518380_37) {
+Obj v__3518381_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518382_37 = PRIM_ISCONS(v__3518381_37);
+if (True == v__3518382_37) {
+Obj v__3518383_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518384_37 = PRIM_CAR(v__3518383_37);
+Obj v__3518385_37 = PRIM_ISCONS(v__3518384_37);
+if (True == v__3518385_37) {
+Obj v__3518386_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518387_37 = PRIM_CAR(v__3518386_37);
+Obj v__3518388_37 = PRIM_CAR(v__3518387_37);
+Obj v__3518389_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518388_37);
+if (True == v__3518389_37) {
+Obj v__3518390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518391_37 = PRIM_CAR(v__3518390_37);
+Obj v__3518392_37 = PRIM_CDR(v__3518391_37);
+Obj v__3518393_37 = PRIM_ISCONS(v__3518392_37);
+if (True == v__3518393_37) {
+Obj v__3518394_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518395_37 = PRIM_CAR(v__3518394_37);
+Obj v__3518396_37 = PRIM_CDR(v__3518395_37);
+Obj v__3518397_37 = PRIM_CAR(v__3518396_37);
+Obj v__3517559_37 = v__3518397_37;
+Obj v__3518398_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518399_37 = PRIM_CAR(v__3518398_37);
+Obj v__3518400_37 = PRIM_CDR(v__3518399_37);
+Obj v__3518401_37 = PRIM_CDR(v__3518400_37);
+Obj v__3518402_37 = PRIM_ISCONS(v__3518401_37);
+if (True == v__3518402_37) {
+Obj v__3518403_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518404_37 = PRIM_CAR(v__3518403_37);
+Obj v__3518405_37 = PRIM_CDR(v__3518404_37);
+Obj v__3518406_37 = PRIM_CDR(v__3518405_37);
+Obj v__3518407_37 = PRIM_CAR(v__3518406_37);
+Obj v__3517560_37 = v__3518407_37;
+Obj v__3518408_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518409_37 = PRIM_CAR(v__3518408_37);
+Obj v__3518410_37 = PRIM_CDR(v__3518409_37);
+Obj v__3518411_37 = PRIM_CDR(v__3518410_37);
+Obj v__3518412_37 = PRIM_CDR(v__3518411_37);
+Obj v__3518413_37 = PRIM_EQ(Nil, v__3518412_37);
+if (True == v__3518413_37) {
+Obj v__3518414_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518415_37 = PRIM_CDR(v__3518414_37);
+Obj v__3517561_37 = v__3518415_37;
+R[1] = v__3517559_37;
+R[2] = v__3517561_37;
 saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), _3517554_37, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517560_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517550_37);
+coraCall0(co, v__3517556_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518410_37= co->res;
-Obj _3517553_37 = R[1];
-Obj _3517555_37 = R[2];
-Obj _3518411_37 = makeCons(co->gc, _3518410_37, Nil);
-Obj _3518412_37 = makeCons(co->gc, _3517553_37, _3518411_37);
-Obj _3518413_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518412_37);
-Obj _3518414_37 = makeCons(co->gc, _3518413_37, _3517555_37);
-Obj _3518415_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518414_37);
+Obj v__3518416_37= co->res;
+Obj v__3517559_37 = R[1];
+Obj v__3517561_37 = R[2];
+Obj v__3518417_37 = makeCons(co->gc, v__3518416_37, Nil);
+Obj v__3518418_37 = makeCons(co->gc, v__3517559_37, v__3518417_37);
+Obj v__3518419_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518418_37);
+Obj v__3518420_37 = makeCons(co->gc, v__3518419_37, v__3517561_37);
+Obj v__3518421_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518420_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), _3518415_37);
+coraCall1(co, closureRef(R[0], 1), v__3518421_37);
 return;
 }
 }
@@ -6274,15 +6283,15 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518368_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518368_37) {
-Obj _3518369_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517551_37 = _3518369_37;
-Obj _3518370_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517552_37 = _3518370_37;
-Obj _3518371_37 = makeCons(co->gc, _3517551_37, _3517552_37);
+Obj v__3518374_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518374_37) {
+Obj v__3518375_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517557_37 = v__3518375_37;
+Obj v__3518376_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517558_37 = v__3518376_37;
+Obj v__3518377_37 = makeCons(co->gc, v__3517557_37, v__3517558_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), _3518371_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3518377_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6297,10 +6306,10 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3518364_37 = makeCons(co->gc, x, Nil);
-Obj _3518365_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, _3518364_37);
-coraReturn(co, _3518365_37);
+Obj v_x = R[1];
+Obj v__3518370_37 = makeCons(co->gc, v_x, Nil);
+Obj v__3518371_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3518370_37);
+coraReturn(co, v__3518371_37);
 return;
 }
 }
@@ -6310,151 +6319,151 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517341_37 = R[1];
-Obj _3517342_37 = R[2];
-R[1] = _3517342_37;
-R[2] = _3517341_37;
+Obj v__3517347_37 = R[1];
+Obj v__3517348_37 = R[2];
+R[1] = v__3517348_37;
+R[2] = v__3517347_37;
 saveCont(co, clofun45, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517342_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517348_37);
 return;
 }
 case 1:
 {
-Obj _3518293_37= co->res;
-Obj _3517342_37 = R[1];
-Obj _3517533_37 = _3518293_37;
-Obj _3518294_37 = PRIM_EQ(MAKE_NUMBER(-1), _3517533_37);
-if (True == _3518294_37) {
-coraReturn(co, _3517342_37);
+Obj v__3518299_37= co->res;
+Obj v__3517348_37 = R[1];
+Obj v__3517539_37 = v__3518299_37;
+Obj v__3518300_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517539_37);
+if (True == v__3518300_37) {
+coraReturn(co, v__3517348_37);
 return;
 } else {
-Obj _3518295_37 = makeCons(co->gc, _3517533_37, Nil);
-Obj _3518296_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, _3518295_37);
-coraReturn(co, _3518296_37);
+Obj v__3518301_37 = makeCons(co->gc, v__3517539_37, Nil);
+Obj v__3518302_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518301_37);
+coraReturn(co, v__3518302_37);
 return;
 }
 }
 case 2:
 {
-Obj _3518360_37= co->res;
-Obj _3518358_37 = R[1];
-Obj _3518361_37 = makeCons(co->gc, _3518358_37, _3518360_37);
-Obj _3518362_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, _3518361_37);
-coraReturn(co, _3518362_37);
+Obj v__3518366_37= co->res;
+Obj v__3518364_37 = R[1];
+Obj v__3518367_37 = makeCons(co->gc, v__3518364_37, v__3518366_37);
+Obj v__3518368_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518367_37);
+coraReturn(co, v__3518368_37);
 return;
 }
 case 3:
 {
-Obj _3518359_37= co->res;
-Obj _3517543_37 = R[1];
-Obj _3518358_37 = R[2];
-R[1] = _3518358_37;
+Obj v__3518365_37= co->res;
+Obj v__3517549_37 = R[1];
+Obj v__3518364_37 = R[2];
+R[1] = v__3518364_37;
 saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518359_37, _3517543_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518365_37, v__3517549_37);
 return;
 }
 case 4:
 {
-Obj _3518355_37= co->res;
-Obj _3517541_37 = R[1];
-Obj _3517341_37 = R[2];
-Obj _3517543_37 = R[3];
-Obj _3518356_37 = makeCons(co->gc, _3518355_37, Nil);
-Obj _3518357_37 = makeCons(co->gc, _3517541_37, _3518356_37);
-Obj _3518358_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518357_37);
-R[1] = _3517543_37;
-R[2] = _3518358_37;
+Obj v__3518361_37= co->res;
+Obj v__3517547_37 = R[1];
+Obj v__3517347_37 = R[2];
+Obj v__3517549_37 = R[3];
+Obj v__3518362_37 = makeCons(co->gc, v__3518361_37, Nil);
+Obj v__3518363_37 = makeCons(co->gc, v__3517547_37, v__3518362_37);
+Obj v__3518364_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518363_37);
+R[1] = v__3517549_37;
+R[2] = v__3518364_37;
 saveCont(co, clofun45, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), _3517341_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3517347_37);
 return;
 }
 case 5:
 {
-Obj _3518354_37= co->res;
-Obj _3517542_37 = R[1];
-Obj _3517541_37 = R[2];
-Obj _3517341_37 = R[3];
-Obj _3517543_37 = _3518354_37;
-R[1] = _3517541_37;
-R[2] = _3517341_37;
-R[3] = _3517543_37;
+Obj v__3518360_37= co->res;
+Obj v__3517548_37 = R[1];
+Obj v__3517547_37 = R[2];
+Obj v__3517347_37 = R[3];
+Obj v__3517549_37 = v__3518360_37;
+R[1] = v__3517547_37;
+R[2] = v__3517347_37;
+R[3] = v__3517549_37;
 saveCont(co, clofun45, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), _3517543_37, _3517542_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517549_37, v__3517548_37);
 return;
 }
 case 6:
 {
-Obj _3518291_37= co->res;
-Obj _3517342_37 = R[1];
-Obj _3517341_37 = R[2];
-if (True == _3518291_37) {
-coraReturn(co, _3517342_37);
+Obj v__3518297_37= co->res;
+Obj v__3517348_37 = R[1];
+Obj v__3517347_37 = R[2];
+if (True == v__3518297_37) {
+coraReturn(co, v__3517348_37);
 return;
 } else {
-Obj _3518292_37 = primIsSymbol(_3517342_37);
-if (True == _3518292_37) {
-R[1] = _3517342_37;
+Obj v__3518298_37 = primIsSymbol(v__3517348_37);
+if (True == v__3518298_37) {
+R[1] = v__3517348_37;
 saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517342_37, _3517341_37);
-return;
-} else {
-Obj _3517534_37 = makeNative(co->gc, 3, clofun44, 0, 2, _3517342_37, _3517341_37);
-Obj _3518334_37 = PRIM_ISCONS(_3517342_37);
-if (True == _3518334_37) {
-Obj _3518335_37 = PRIM_CAR(_3517342_37);
-Obj _3518336_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518335_37);
-if (True == _3518336_37) {
-Obj _3518337_37 = PRIM_CDR(_3517342_37);
-Obj _3518338_37 = PRIM_ISCONS(_3518337_37);
-if (True == _3518338_37) {
-Obj _3518339_37 = PRIM_CDR(_3517342_37);
-Obj _3518340_37 = PRIM_CAR(_3518339_37);
-Obj _3517541_37 = _3518340_37;
-Obj _3518341_37 = PRIM_CDR(_3517342_37);
-Obj _3518342_37 = PRIM_CDR(_3518341_37);
-Obj _3518343_37 = PRIM_ISCONS(_3518342_37);
-if (True == _3518343_37) {
-Obj _3518344_37 = PRIM_CDR(_3517342_37);
-Obj _3518345_37 = PRIM_CDR(_3518344_37);
-Obj _3518346_37 = PRIM_CAR(_3518345_37);
-Obj _3517542_37 = _3518346_37;
-Obj _3518347_37 = PRIM_CDR(_3517342_37);
-Obj _3518348_37 = PRIM_CDR(_3518347_37);
-Obj _3518349_37 = PRIM_CDR(_3518348_37);
-Obj _3518350_37 = PRIM_EQ(Nil, _3518349_37);
-if (True == _3518350_37) {
-Obj _3518351_37 = makeCons(co->gc, _3517542_37, Nil);
-Obj _3518352_37 = makeCons(co->gc, _3517541_37, _3518351_37);
-Obj _3518353_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518352_37);
-R[1] = _3517542_37;
-R[2] = _3517541_37;
-R[3] = _3517341_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517348_37, v__3517347_37);
+return;
+} else {
+Obj v__3517540_37 = makeNative(co->gc, 3, clofun44, 0, 2, v__3517348_37, v__3517347_37);
+Obj v__3518340_37 = PRIM_ISCONS(v__3517348_37);
+if (True == v__3518340_37) {
+Obj v__3518341_37 = PRIM_CAR(v__3517348_37);
+Obj v__3518342_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518341_37);
+if (True == v__3518342_37) {
+Obj v__3518343_37 = PRIM_CDR(v__3517348_37);
+Obj v__3518344_37 = PRIM_ISCONS(v__3518343_37);
+if (True == v__3518344_37) {
+Obj v__3518345_37 = PRIM_CDR(v__3517348_37);
+Obj v__3518346_37 = PRIM_CAR(v__3518345_37);
+Obj v__3517547_37 = v__3518346_37;
+Obj v__3518347_37 = PRIM_CDR(v__3517348_37);
+Obj v__3518348_37 = PRIM_CDR(v__3518347_37);
+Obj v__3518349_37 = PRIM_ISCONS(v__3518348_37);
+if (True == v__3518349_37) {
+Obj v__3518350_37 = PRIM_CDR(v__3517348_37);
+Obj v__3518351_37 = PRIM_CDR(v__3518350_37);
+Obj v__3518352_37 = PRIM_CAR(v__3518351_37);
+Obj v__3517548_37 = v__3518352_37;
+Obj v__3518353_37 = PRIM_CDR(v__3517348_37);
+Obj v__3518354_37 = PRIM_CDR(v__3518353_37);
+Obj v__3518355_37 = PRIM_CDR(v__3518354_37);
+Obj v__3518356_37 = PRIM_EQ(Nil, v__3518355_37);
+if (True == v__3518356_37) {
+Obj v__3518357_37 = makeCons(co->gc, v__3517548_37, Nil);
+Obj v__3518358_37 = makeCons(co->gc, v__3517547_37, v__3518357_37);
+Obj v__3518359_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518358_37);
+R[1] = v__3517548_37;
+R[2] = v__3517547_37;
+R[3] = v__3517347_37;
 saveCont(co, clofun45, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518353_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518359_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517534_37);
+coraCall0(co, v__3517540_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517534_37);
+coraCall0(co, v__3517540_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517534_37);
+coraCall0(co, v__3517540_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517534_37);
+coraCall0(co, v__3517540_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517534_37);
+coraCall0(co, v__3517540_37);
 return;
 }
 }
@@ -6467,99 +6476,99 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517535_37 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj _3518302_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518302_37) {
-Obj _3518303_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518304_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518303_37);
-if (True == _3518304_37) {
-Obj _3518305_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518306_37 = PRIM_ISCONS(_3518305_37);
-if (True == _3518306_37) {
-Obj _3518307_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518308_37 = PRIM_CAR(_3518307_37);
-Obj _3517538_37 = _3518308_37;
-Obj _3518309_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518310_37 = PRIM_CDR(_3518309_37);
-Obj _3518311_37 = PRIM_ISCONS(_3518310_37);
-if (True == _3518311_37) {
-Obj _3518312_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518313_37 = PRIM_CDR(_3518312_37);
-Obj _3518314_37 = PRIM_CAR(_3518313_37);
-Obj _3517539_37 = _3518314_37;
-Obj _3518315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518316_37 = PRIM_CDR(_3518315_37);
-Obj _3518317_37 = PRIM_CDR(_3518316_37);
-Obj _3518318_37 = PRIM_ISCONS(_3518317_37);
-if (True == _3518318_37) {
-Obj _3518319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518320_37 = PRIM_CDR(_3518319_37);
-Obj _3518321_37 = PRIM_CDR(_3518320_37);
-Obj _3518322_37 = PRIM_CAR(_3518321_37);
-Obj _3517540_37 = _3518322_37;
-Obj _3518323_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518324_37 = PRIM_CDR(_3518323_37);
-Obj _3518325_37 = PRIM_CDR(_3518324_37);
-Obj _3518326_37 = PRIM_CDR(_3518325_37);
-Obj _3518327_37 = PRIM_EQ(Nil, _3518326_37);
-if (True == _3518327_37) {
-R[1] = _3517540_37;
-R[2] = _3517538_37;
+Obj v__3517541_37 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518308_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518308_37) {
+Obj v__3518309_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518310_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518309_37);
+if (True == v__3518310_37) {
+Obj v__3518311_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518312_37 = PRIM_ISCONS(v__3518311_37);
+if (True == v__3518312_37) {
+Obj v__3518313_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518314_37 = PRIM_CAR(v__3518313_37);
+Obj v__3517544_37 = v__3518314_37;
+Obj v__3518315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518316_37 = PRIM_CDR(v__3518315_37);
+Obj v__3518317_37 = PRIM_ISCONS(v__3518316_37);
+if (True == v__3518317_37) {
+Obj v__3518318_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518319_37 = PRIM_CDR(v__3518318_37);
+Obj v__3518320_37 = PRIM_CAR(v__3518319_37);
+Obj v__3517545_37 = v__3518320_37;
+Obj v__3518321_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518322_37 = PRIM_CDR(v__3518321_37);
+Obj v__3518323_37 = PRIM_CDR(v__3518322_37);
+Obj v__3518324_37 = PRIM_ISCONS(v__3518323_37);
+if (True == v__3518324_37) {
+Obj v__3518325_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518326_37 = PRIM_CDR(v__3518325_37);
+Obj v__3518327_37 = PRIM_CDR(v__3518326_37);
+Obj v__3518328_37 = PRIM_CAR(v__3518327_37);
+Obj v__3517546_37 = v__3518328_37;
+Obj v__3518329_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518330_37 = PRIM_CDR(v__3518329_37);
+Obj v__3518331_37 = PRIM_CDR(v__3518330_37);
+Obj v__3518332_37 = PRIM_CDR(v__3518331_37);
+Obj v__3518333_37 = PRIM_EQ(Nil, v__3518332_37);
+if (True == v__3518333_37) {
+R[1] = v__3517546_37;
+R[2] = v__3517544_37;
 saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517539_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517545_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517535_37);
+coraCall0(co, v__3517541_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517535_37);
+coraCall0(co, v__3517541_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517535_37);
+coraCall0(co, v__3517541_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517535_37);
+coraCall0(co, v__3517541_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517535_37);
+coraCall0(co, v__3517541_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517535_37);
+coraCall0(co, v__3517541_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518329_37= co->res;
-Obj _3518328_37 = R[1];
-Obj _3517538_37 = R[2];
-Obj _3518330_37 = makeCons(co->gc, _3518329_37, Nil);
-Obj _3518331_37 = makeCons(co->gc, _3518328_37, _3518330_37);
-Obj _3518332_37 = makeCons(co->gc, _3517538_37, _3518331_37);
-Obj _3518333_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3518332_37);
-coraReturn(co, _3518333_37);
+Obj v__3518335_37= co->res;
+Obj v__3518334_37 = R[1];
+Obj v__3517544_37 = R[2];
+Obj v__3518336_37 = makeCons(co->gc, v__3518335_37, Nil);
+Obj v__3518337_37 = makeCons(co->gc, v__3518334_37, v__3518336_37);
+Obj v__3518338_37 = makeCons(co->gc, v__3517544_37, v__3518337_37);
+Obj v__3518339_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518338_37);
+coraReturn(co, v__3518339_37);
 return;
 }
 case 2:
 {
-Obj _3518328_37= co->res;
-Obj _3517540_37 = R[1];
-Obj _3517538_37 = R[2];
-R[1] = _3518328_37;
-R[2] = _3517538_37;
+Obj v__3518334_37= co->res;
+Obj v__3517546_37 = R[1];
+Obj v__3517544_37 = R[2];
+R[1] = v__3518334_37;
+R[2] = v__3517544_37;
 saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), _3517540_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517546_37);
 return;
 }
 }
@@ -6569,14 +6578,14 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518297_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518297_37) {
-Obj _3518298_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517536_37 = _3518298_37;
-Obj _3518299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517537_37 = _3518299_37;
-R[1] = _3517536_37;
-R[2] = _3517537_37;
+Obj v__3518303_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518303_37) {
+Obj v__3518304_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517542_37 = v__3518304_37;
+Obj v__3518305_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517543_37 = v__3518305_37;
+R[1] = v__3517542_37;
+R[2] = v__3517543_37;
 saveCont(co, clofun43, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
@@ -6588,12 +6597,12 @@ return;
 }
 case 1:
 {
-Obj _3518300_37= co->res;
-Obj _3517536_37 = R[1];
-Obj _3517537_37 = R[2];
-Obj _3518301_37 = makeCons(co->gc, _3517536_37, _3517537_37);
+Obj v__3518306_37= co->res;
+Obj v__3517542_37 = R[1];
+Obj v__3517543_37 = R[2];
+Obj v__3518307_37 = makeCons(co->gc, v__3517542_37, v__3517543_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3518300_37, _3518301_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518306_37, v__3518307_37);
 return;
 }
 }
@@ -6603,86 +6612,86 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517328_37 = R[1];
-R[1] = _3517328_37;
+Obj v__3517334_37 = R[1];
+R[1] = v__3517334_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), _3517328_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517334_37);
 return;
 }
 case 1:
 {
-Obj _3518289_37= co->res;
-Obj _3517531_37 = R[1];
+Obj v__3518295_37= co->res;
+Obj v__3517537_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518289_37, _3517531_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518295_37, v__3517537_37);
 return;
 }
 case 2:
 {
-Obj _3518116_37= co->res;
-Obj _3517328_37 = R[1];
-if (True == _3518116_37) {
+Obj v__3518122_37= co->res;
+Obj v__3517334_37 = R[1];
+if (True == v__3518122_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3518117_37 = primIsSymbol(_3517328_37);
-if (True == _3518117_37) {
-Obj _3518118_37 = makeCons(co->gc, _3517328_37, Nil);
-coraReturn(co, _3518118_37);
-return;
-} else {
-Obj _3517504_37 = makeNative(co->gc, 1, clofun41, 0, 1, _3517328_37);
-Obj _3518272_37 = PRIM_ISCONS(_3517328_37);
-if (True == _3518272_37) {
-Obj _3518273_37 = PRIM_CAR(_3517328_37);
-Obj _3518274_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3518273_37);
-if (True == _3518274_37) {
-Obj _3518275_37 = PRIM_CDR(_3517328_37);
-Obj _3518276_37 = PRIM_ISCONS(_3518275_37);
-if (True == _3518276_37) {
-Obj _3518277_37 = PRIM_CDR(_3517328_37);
-Obj _3518278_37 = PRIM_CAR(_3518277_37);
-Obj _3517531_37 = _3518278_37;
-Obj _3518279_37 = PRIM_CDR(_3517328_37);
-Obj _3518280_37 = PRIM_CDR(_3518279_37);
-Obj _3518281_37 = PRIM_ISCONS(_3518280_37);
-if (True == _3518281_37) {
-Obj _3518282_37 = PRIM_CDR(_3517328_37);
-Obj _3518283_37 = PRIM_CDR(_3518282_37);
-Obj _3518284_37 = PRIM_CAR(_3518283_37);
-Obj _3517532_37 = _3518284_37;
-Obj _3518285_37 = PRIM_CDR(_3517328_37);
-Obj _3518286_37 = PRIM_CDR(_3518285_37);
-Obj _3518287_37 = PRIM_CDR(_3518286_37);
-Obj _3518288_37 = PRIM_EQ(Nil, _3518287_37);
-if (True == _3518288_37) {
-R[1] = _3517531_37;
+Obj v__3518123_37 = primIsSymbol(v__3517334_37);
+if (True == v__3518123_37) {
+Obj v__3518124_37 = makeCons(co->gc, v__3517334_37, Nil);
+coraReturn(co, v__3518124_37);
+return;
+} else {
+Obj v__3517510_37 = makeNative(co->gc, 1, clofun41, 0, 1, v__3517334_37);
+Obj v__3518278_37 = PRIM_ISCONS(v__3517334_37);
+if (True == v__3518278_37) {
+Obj v__3518279_37 = PRIM_CAR(v__3517334_37);
+Obj v__3518280_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518279_37);
+if (True == v__3518280_37) {
+Obj v__3518281_37 = PRIM_CDR(v__3517334_37);
+Obj v__3518282_37 = PRIM_ISCONS(v__3518281_37);
+if (True == v__3518282_37) {
+Obj v__3518283_37 = PRIM_CDR(v__3517334_37);
+Obj v__3518284_37 = PRIM_CAR(v__3518283_37);
+Obj v__3517537_37 = v__3518284_37;
+Obj v__3518285_37 = PRIM_CDR(v__3517334_37);
+Obj v__3518286_37 = PRIM_CDR(v__3518285_37);
+Obj v__3518287_37 = PRIM_ISCONS(v__3518286_37);
+if (True == v__3518287_37) {
+Obj v__3518288_37 = PRIM_CDR(v__3517334_37);
+Obj v__3518289_37 = PRIM_CDR(v__3518288_37);
+Obj v__3518290_37 = PRIM_CAR(v__3518289_37);
+Obj v__3517538_37 = v__3518290_37;
+Obj v__3518291_37 = PRIM_CDR(v__3517334_37);
+Obj v__3518292_37 = PRIM_CDR(v__3518291_37);
+Obj v__3518293_37 = PRIM_CDR(v__3518292_37);
+Obj v__3518294_37 = PRIM_EQ(Nil, v__3518293_37);
+if (True == v__3518294_37) {
+R[1] = v__3517537_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517532_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517538_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517504_37);
+coraCall0(co, v__3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517504_37);
+coraCall0(co, v__3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517504_37);
+coraCall0(co, v__3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517504_37);
+coraCall0(co, v__3517510_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517504_37);
+coraCall0(co, v__3517510_37);
 return;
 }
 }
@@ -6695,84 +6704,84 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517505_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj _3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518242_37) {
-Obj _3518243_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518244_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3518243_37);
-if (True == _3518244_37) {
-Obj _3518245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518246_37 = PRIM_ISCONS(_3518245_37);
-if (True == _3518246_37) {
-Obj _3518247_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518248_37 = PRIM_CAR(_3518247_37);
-Obj _3517528_37 = _3518248_37;
-Obj _3518249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518250_37 = PRIM_CDR(_3518249_37);
-Obj _3518251_37 = PRIM_ISCONS(_3518250_37);
-if (True == _3518251_37) {
-Obj _3518252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518253_37 = PRIM_CDR(_3518252_37);
-Obj _3518254_37 = PRIM_CAR(_3518253_37);
-Obj _3517529_37 = _3518254_37;
-Obj _3518255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518256_37 = PRIM_CDR(_3518255_37);
-Obj _3518257_37 = PRIM_CDR(_3518256_37);
-Obj _3518258_37 = PRIM_ISCONS(_3518257_37);
-if (True == _3518258_37) {
-Obj _3518259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518260_37 = PRIM_CDR(_3518259_37);
-Obj _3518261_37 = PRIM_CDR(_3518260_37);
-Obj _3518262_37 = PRIM_CAR(_3518261_37);
-Obj _3517530_37 = _3518262_37;
-Obj _3518263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518264_37 = PRIM_CDR(_3518263_37);
-Obj _3518265_37 = PRIM_CDR(_3518264_37);
-Obj _3518266_37 = PRIM_CDR(_3518265_37);
-Obj _3518267_37 = PRIM_EQ(Nil, _3518266_37);
-if (True == _3518267_37) {
-Obj _3518268_37 = makeCons(co->gc, _3517530_37, Nil);
-Obj _3518269_37 = makeCons(co->gc, _3517529_37, _3518268_37);
-Obj _3518270_37 = makeCons(co->gc, _3517528_37, _3518269_37);
+Obj v__3517511_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3518248_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518248_37) {
+Obj v__3518249_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518250_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518249_37);
+if (True == v__3518250_37) {
+Obj v__3518251_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518252_37 = PRIM_ISCONS(v__3518251_37);
+if (True == v__3518252_37) {
+Obj v__3518253_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518254_37 = PRIM_CAR(v__3518253_37);
+Obj v__3517534_37 = v__3518254_37;
+Obj v__3518255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518256_37 = PRIM_CDR(v__3518255_37);
+Obj v__3518257_37 = PRIM_ISCONS(v__3518256_37);
+if (True == v__3518257_37) {
+Obj v__3518258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518259_37 = PRIM_CDR(v__3518258_37);
+Obj v__3518260_37 = PRIM_CAR(v__3518259_37);
+Obj v__3517535_37 = v__3518260_37;
+Obj v__3518261_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518262_37 = PRIM_CDR(v__3518261_37);
+Obj v__3518263_37 = PRIM_CDR(v__3518262_37);
+Obj v__3518264_37 = PRIM_ISCONS(v__3518263_37);
+if (True == v__3518264_37) {
+Obj v__3518265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518266_37 = PRIM_CDR(v__3518265_37);
+Obj v__3518267_37 = PRIM_CDR(v__3518266_37);
+Obj v__3518268_37 = PRIM_CAR(v__3518267_37);
+Obj v__3517536_37 = v__3518268_37;
+Obj v__3518269_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518270_37 = PRIM_CDR(v__3518269_37);
+Obj v__3518271_37 = PRIM_CDR(v__3518270_37);
+Obj v__3518272_37 = PRIM_CDR(v__3518271_37);
+Obj v__3518273_37 = PRIM_EQ(Nil, v__3518272_37);
+if (True == v__3518273_37) {
+Obj v__3518274_37 = makeCons(co->gc, v__3517536_37, Nil);
+Obj v__3518275_37 = makeCons(co->gc, v__3517535_37, v__3518274_37);
+Obj v__3518276_37 = makeCons(co->gc, v__3517534_37, v__3518275_37);
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518270_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518276_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517505_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517505_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517505_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517505_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517505_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517505_37);
+coraCall0(co, v__3517511_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518271_37= co->res;
+Obj v__3518277_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518271_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518277_37);
 return;
 }
 }
@@ -6782,67 +6791,67 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517506_37 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
-Obj _3518222_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518222_37) {
-Obj _3518223_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518224_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3518223_37);
-if (True == _3518224_37) {
-Obj _3518225_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518226_37 = PRIM_ISCONS(_3518225_37);
-if (True == _3518226_37) {
-Obj _3518227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518228_37 = PRIM_CAR(_3518227_37);
-Obj _3517526_37 = _3518228_37;
-Obj _3518229_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518230_37 = PRIM_CDR(_3518229_37);
-Obj _3518231_37 = PRIM_ISCONS(_3518230_37);
-if (True == _3518231_37) {
-Obj _3518232_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518233_37 = PRIM_CDR(_3518232_37);
-Obj _3518234_37 = PRIM_CAR(_3518233_37);
-Obj _3517527_37 = _3518234_37;
-Obj _3518235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518236_37 = PRIM_CDR(_3518235_37);
-Obj _3518237_37 = PRIM_CDR(_3518236_37);
-Obj _3518238_37 = PRIM_EQ(Nil, _3518237_37);
-if (True == _3518238_37) {
-Obj _3518239_37 = makeCons(co->gc, _3517527_37, Nil);
-Obj _3518240_37 = makeCons(co->gc, _3517526_37, _3518239_37);
+Obj v__3517512_37 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3518228_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518228_37) {
+Obj v__3518229_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518230_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518229_37);
+if (True == v__3518230_37) {
+Obj v__3518231_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518232_37 = PRIM_ISCONS(v__3518231_37);
+if (True == v__3518232_37) {
+Obj v__3518233_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518234_37 = PRIM_CAR(v__3518233_37);
+Obj v__3517532_37 = v__3518234_37;
+Obj v__3518235_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518236_37 = PRIM_CDR(v__3518235_37);
+Obj v__3518237_37 = PRIM_ISCONS(v__3518236_37);
+if (True == v__3518237_37) {
+Obj v__3518238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518239_37 = PRIM_CDR(v__3518238_37);
+Obj v__3518240_37 = PRIM_CAR(v__3518239_37);
+Obj v__3517533_37 = v__3518240_37;
+Obj v__3518241_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518242_37 = PRIM_CDR(v__3518241_37);
+Obj v__3518243_37 = PRIM_CDR(v__3518242_37);
+Obj v__3518244_37 = PRIM_EQ(Nil, v__3518243_37);
+if (True == v__3518244_37) {
+Obj v__3518245_37 = makeCons(co->gc, v__3517533_37, Nil);
+Obj v__3518246_37 = makeCons(co->gc, v__3517532_37, v__3518245_37);
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518240_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518246_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517506_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517506_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517506_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517506_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517506_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518241_37= co->res;
+Obj v__3518247_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518241_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518247_37);
 return;
 }
 }
@@ -6852,106 +6861,106 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517507_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj _3518192_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518192_37) {
-Obj _3518193_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518194_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3518193_37);
-if (True == _3518194_37) {
-Obj _3518195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518196_37 = PRIM_ISCONS(_3518195_37);
-if (True == _3518196_37) {
-Obj _3518197_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518198_37 = PRIM_CAR(_3518197_37);
-Obj _3517523_37 = _3518198_37;
-Obj _3518199_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518200_37 = PRIM_CDR(_3518199_37);
-Obj _3518201_37 = PRIM_ISCONS(_3518200_37);
-if (True == _3518201_37) {
-Obj _3518202_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518203_37 = PRIM_CDR(_3518202_37);
-Obj _3518204_37 = PRIM_CAR(_3518203_37);
-Obj _3517524_37 = _3518204_37;
-Obj _3518205_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518206_37 = PRIM_CDR(_3518205_37);
-Obj _3518207_37 = PRIM_CDR(_3518206_37);
-Obj _3518208_37 = PRIM_ISCONS(_3518207_37);
-if (True == _3518208_37) {
-Obj _3518209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518210_37 = PRIM_CDR(_3518209_37);
-Obj _3518211_37 = PRIM_CDR(_3518210_37);
-Obj _3518212_37 = PRIM_CAR(_3518211_37);
-Obj _3517525_37 = _3518212_37;
-Obj _3518213_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518214_37 = PRIM_CDR(_3518213_37);
-Obj _3518215_37 = PRIM_CDR(_3518214_37);
-Obj _3518216_37 = PRIM_CDR(_3518215_37);
-Obj _3518217_37 = PRIM_EQ(Nil, _3518216_37);
-if (True == _3518217_37) {
-R[1] = _3517525_37;
-R[2] = _3517523_37;
+Obj v__3517513_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3518198_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518198_37) {
+Obj v__3518199_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518200_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518199_37);
+if (True == v__3518200_37) {
+Obj v__3518201_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518202_37 = PRIM_ISCONS(v__3518201_37);
+if (True == v__3518202_37) {
+Obj v__3518203_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518204_37 = PRIM_CAR(v__3518203_37);
+Obj v__3517529_37 = v__3518204_37;
+Obj v__3518205_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518206_37 = PRIM_CDR(v__3518205_37);
+Obj v__3518207_37 = PRIM_ISCONS(v__3518206_37);
+if (True == v__3518207_37) {
+Obj v__3518208_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518209_37 = PRIM_CDR(v__3518208_37);
+Obj v__3518210_37 = PRIM_CAR(v__3518209_37);
+Obj v__3517530_37 = v__3518210_37;
+Obj v__3518211_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518212_37 = PRIM_CDR(v__3518211_37);
+Obj v__3518213_37 = PRIM_CDR(v__3518212_37);
+Obj v__3518214_37 = PRIM_ISCONS(v__3518213_37);
+if (True == v__3518214_37) {
+Obj v__3518215_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518216_37 = PRIM_CDR(v__3518215_37);
+Obj v__3518217_37 = PRIM_CDR(v__3518216_37);
+Obj v__3518218_37 = PRIM_CAR(v__3518217_37);
+Obj v__3517531_37 = v__3518218_37;
+Obj v__3518219_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518220_37 = PRIM_CDR(v__3518219_37);
+Obj v__3518221_37 = PRIM_CDR(v__3518220_37);
+Obj v__3518222_37 = PRIM_CDR(v__3518221_37);
+Obj v__3518223_37 = PRIM_EQ(Nil, v__3518222_37);
+if (True == v__3518223_37) {
+R[1] = v__3517531_37;
+R[2] = v__3517529_37;
 saveCont(co, clofun39, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517524_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517530_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517507_37);
+coraCall0(co, v__3517513_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517507_37);
+coraCall0(co, v__3517513_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517507_37);
+coraCall0(co, v__3517513_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517507_37);
+coraCall0(co, v__3517513_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517507_37);
+coraCall0(co, v__3517513_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517507_37);
+coraCall0(co, v__3517513_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518221_37= co->res;
-Obj _3518218_37 = R[1];
+Obj v__3518227_37= co->res;
+Obj v__3518224_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3518218_37, _3518221_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518224_37, v__3518227_37);
 return;
 }
 case 2:
 {
-Obj _3518219_37= co->res;
-Obj _3517523_37 = R[1];
-Obj _3518218_37 = R[2];
-Obj _3518220_37 = makeCons(co->gc, _3517523_37, Nil);
-R[1] = _3518218_37;
+Obj v__3518225_37= co->res;
+Obj v__3517529_37 = R[1];
+Obj v__3518224_37 = R[2];
+Obj v__3518226_37 = makeCons(co->gc, v__3517529_37, Nil);
+R[1] = v__3518224_37;
 saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518219_37, _3518220_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518225_37, v__3518226_37);
 return;
 }
 case 3:
 {
-Obj _3518218_37= co->res;
-Obj _3517525_37 = R[1];
-Obj _3517523_37 = R[2];
-R[1] = _3517523_37;
-R[2] = _3518218_37;
+Obj v__3518224_37= co->res;
+Obj v__3517531_37 = R[1];
+Obj v__3517529_37 = R[2];
+R[1] = v__3517529_37;
+R[2] = v__3518224_37;
 saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517525_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517531_37);
 return;
 }
 }
@@ -6961,38 +6970,38 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517508_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj _3518182_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518182_37) {
-Obj _3518183_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518184_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518183_37);
-if (True == _3518184_37) {
-Obj _3518185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518186_37 = PRIM_ISCONS(_3518185_37);
-if (True == _3518186_37) {
-Obj _3518187_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518188_37 = PRIM_CAR(_3518187_37);
-Obj _3517521_37 = _3518188_37;
-Obj _3518189_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518190_37 = PRIM_CDR(_3518189_37);
-Obj _3517522_37 = _3518190_37;
-Obj _3518191_37 = makeCons(co->gc, _3517521_37, _3517522_37);
+Obj v__3517514_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3518188_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518188_37) {
+Obj v__3518189_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518190_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518189_37);
+if (True == v__3518190_37) {
+Obj v__3518191_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518192_37 = PRIM_ISCONS(v__3518191_37);
+if (True == v__3518192_37) {
+Obj v__3518193_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518194_37 = PRIM_CAR(v__3518193_37);
+Obj v__3517527_37 = v__3518194_37;
+Obj v__3518195_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518196_37 = PRIM_CDR(v__3518195_37);
+Obj v__3517528_37 = v__3518196_37;
+Obj v__3518197_37 = makeCons(co->gc, v__3517527_37, v__3517528_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3518191_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518197_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517508_37);
+coraCall0(co, v__3517514_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517508_37);
+coraCall0(co, v__3517514_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517508_37);
+coraCall0(co, v__3517514_37);
 return;
 }
 }
@@ -7003,43 +7012,43 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517509_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj _3518172_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518172_37) {
-Obj _3518173_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518174_37 = PRIM_EQ(getBinding(co, packageID, 72).name, _3518173_37);
-if (True == _3518174_37) {
-Obj _3518175_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518176_37 = PRIM_ISCONS(_3518175_37);
-if (True == _3518176_37) {
-Obj _3518177_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518178_37 = PRIM_CAR(_3518177_37);
-Obj _3517520_37 = _3518178_37;
-Obj _3518179_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518180_37 = PRIM_CDR(_3518179_37);
-Obj _3518181_37 = PRIM_EQ(Nil, _3518180_37);
-if (True == _3518181_37) {
+Obj v__3517515_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3518178_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518178_37) {
+Obj v__3518179_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518180_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518179_37);
+if (True == v__3518180_37) {
+Obj v__3518181_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518182_37 = PRIM_ISCONS(v__3518181_37);
+if (True == v__3518182_37) {
+Obj v__3518183_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518184_37 = PRIM_CAR(v__3518183_37);
+Obj v__3517526_37 = v__3518184_37;
+Obj v__3518185_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518186_37 = PRIM_CDR(v__3518185_37);
+Obj v__3518187_37 = PRIM_EQ(Nil, v__3518186_37);
+if (True == v__3518187_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517520_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517526_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517509_37);
+coraCall0(co, v__3517515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517509_37);
+coraCall0(co, v__3517515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517509_37);
+coraCall0(co, v__3517515_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517509_37);
+coraCall0(co, v__3517515_37);
 return;
 }
 }
@@ -7050,67 +7059,67 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517510_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj _3518152_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518152_37) {
-Obj _3518153_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518154_37 = PRIM_EQ(getBinding(co, packageID, 73).name, _3518153_37);
-if (True == _3518154_37) {
-Obj _3518155_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518156_37 = PRIM_ISCONS(_3518155_37);
-if (True == _3518156_37) {
-Obj _3518157_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518158_37 = PRIM_CAR(_3518157_37);
-Obj _3517518_37 = _3518158_37;
-Obj _3518159_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518160_37 = PRIM_CDR(_3518159_37);
-Obj _3518161_37 = PRIM_ISCONS(_3518160_37);
-if (True == _3518161_37) {
-Obj _3518162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518163_37 = PRIM_CDR(_3518162_37);
-Obj _3518164_37 = PRIM_CAR(_3518163_37);
-Obj _3517519_37 = _3518164_37;
-Obj _3518165_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518166_37 = PRIM_CDR(_3518165_37);
-Obj _3518167_37 = PRIM_CDR(_3518166_37);
-Obj _3518168_37 = PRIM_EQ(Nil, _3518167_37);
-if (True == _3518168_37) {
-Obj _3518169_37 = makeCons(co->gc, _3517519_37, Nil);
-Obj _3518170_37 = makeCons(co->gc, _3517518_37, _3518169_37);
+Obj v__3517516_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3518158_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518158_37) {
+Obj v__3518159_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518160_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518159_37);
+if (True == v__3518160_37) {
+Obj v__3518161_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518162_37 = PRIM_ISCONS(v__3518161_37);
+if (True == v__3518162_37) {
+Obj v__3518163_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518164_37 = PRIM_CAR(v__3518163_37);
+Obj v__3517524_37 = v__3518164_37;
+Obj v__3518165_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518166_37 = PRIM_CDR(v__3518165_37);
+Obj v__3518167_37 = PRIM_ISCONS(v__3518166_37);
+if (True == v__3518167_37) {
+Obj v__3518168_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518169_37 = PRIM_CDR(v__3518168_37);
+Obj v__3518170_37 = PRIM_CAR(v__3518169_37);
+Obj v__3517525_37 = v__3518170_37;
+Obj v__3518171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518172_37 = PRIM_CDR(v__3518171_37);
+Obj v__3518173_37 = PRIM_CDR(v__3518172_37);
+Obj v__3518174_37 = PRIM_EQ(Nil, v__3518173_37);
+if (True == v__3518174_37) {
+Obj v__3518175_37 = makeCons(co->gc, v__3517525_37, Nil);
+Obj v__3518176_37 = makeCons(co->gc, v__3517524_37, v__3518175_37);
 saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518170_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518176_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517510_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517510_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517510_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517510_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517510_37);
+coraCall0(co, v__3517516_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518171_37= co->res;
+Obj v__3518177_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518171_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518177_37);
 return;
 }
 }
@@ -7120,43 +7129,43 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517511_37 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
-Obj _3518142_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518142_37) {
-Obj _3518143_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518144_37 = PRIM_EQ(getBinding(co, packageID, 74).name, _3518143_37);
-if (True == _3518144_37) {
-Obj _3518145_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518146_37 = PRIM_ISCONS(_3518145_37);
-if (True == _3518146_37) {
-Obj _3518147_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518148_37 = PRIM_CAR(_3518147_37);
-Obj _3517517_37 = _3518148_37;
-Obj _3518149_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518150_37 = PRIM_CDR(_3518149_37);
-Obj _3518151_37 = PRIM_EQ(Nil, _3518150_37);
-if (True == _3518151_37) {
+Obj v__3517517_37 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v__3518148_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518148_37) {
+Obj v__3518149_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518150_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518149_37);
+if (True == v__3518150_37) {
+Obj v__3518151_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518152_37 = PRIM_ISCONS(v__3518151_37);
+if (True == v__3518152_37) {
+Obj v__3518153_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518154_37 = PRIM_CAR(v__3518153_37);
+Obj v__3517523_37 = v__3518154_37;
+Obj v__3518155_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518156_37 = PRIM_CDR(v__3518155_37);
+Obj v__3518157_37 = PRIM_EQ(Nil, v__3518156_37);
+if (True == v__3518157_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517523_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517511_37);
+coraCall0(co, v__3517517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517511_37);
+coraCall0(co, v__3517517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517511_37);
+coraCall0(co, v__3517517_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517511_37);
+coraCall0(co, v__3517517_37);
 return;
 }
 }
@@ -7167,67 +7176,67 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517512_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj _3518124_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518124_37) {
-Obj _3518125_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518126_37 = PRIM_EQ(getBinding(co, packageID, 75).name, _3518125_37);
-if (True == _3518126_37) {
-Obj _3518127_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518128_37 = PRIM_ISCONS(_3518127_37);
-if (True == _3518128_37) {
-Obj _3518129_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518130_37 = PRIM_CAR(_3518129_37);
-Obj _3517515_37 = _3518130_37;
-Obj _3518131_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518132_37 = PRIM_CDR(_3518131_37);
-Obj _3518133_37 = PRIM_ISCONS(_3518132_37);
-if (True == _3518133_37) {
-Obj _3518134_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518135_37 = PRIM_CDR(_3518134_37);
-Obj _3518136_37 = PRIM_CAR(_3518135_37);
-Obj _3517516_37 = _3518136_37;
-Obj _3518137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518138_37 = PRIM_CDR(_3518137_37);
-Obj _3518139_37 = PRIM_CDR(_3518138_37);
-Obj _3518140_37 = PRIM_EQ(Nil, _3518139_37);
-if (True == _3518140_37) {
-R[1] = _3517515_37;
+Obj v__3517518_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
+Obj v__3518130_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518130_37) {
+Obj v__3518131_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518132_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518131_37);
+if (True == v__3518132_37) {
+Obj v__3518133_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518134_37 = PRIM_ISCONS(v__3518133_37);
+if (True == v__3518134_37) {
+Obj v__3518135_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518136_37 = PRIM_CAR(v__3518135_37);
+Obj v__3517521_37 = v__3518136_37;
+Obj v__3518137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518138_37 = PRIM_CDR(v__3518137_37);
+Obj v__3518139_37 = PRIM_ISCONS(v__3518138_37);
+if (True == v__3518139_37) {
+Obj v__3518140_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518141_37 = PRIM_CDR(v__3518140_37);
+Obj v__3518142_37 = PRIM_CAR(v__3518141_37);
+Obj v__3517522_37 = v__3518142_37;
+Obj v__3518143_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518144_37 = PRIM_CDR(v__3518143_37);
+Obj v__3518145_37 = PRIM_CDR(v__3518144_37);
+Obj v__3518146_37 = PRIM_EQ(Nil, v__3518145_37);
+if (True == v__3518146_37) {
+R[1] = v__3517521_37;
 saveCont(co, clofun34, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), _3517516_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517522_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517512_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517512_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517512_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517512_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517512_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518141_37= co->res;
-Obj _3517515_37 = R[1];
+Obj v__3518147_37= co->res;
+Obj v__3517521_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3518141_37, _3517515_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518147_37, v__3517521_37);
 return;
 }
 }
@@ -7237,15 +7246,15 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518119_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518119_37) {
-Obj _3518120_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517513_37 = _3518120_37;
-Obj _3518121_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517514_37 = _3518121_37;
-Obj _3518122_37 = makeCons(co->gc, _3517513_37, _3517514_37);
+Obj v__3518125_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518125_37) {
+Obj v__3518126_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517519_37 = v__3518126_37;
+Obj v__3518127_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517520_37 = v__3518127_37;
+Obj v__3518128_37 = makeCons(co->gc, v__3517519_37, v__3517520_37);
 saveCont(co, clofun33, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), _3518122_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518128_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7255,9 +7264,9 @@ return;
 }
 case 1:
 {
-Obj _3518123_37= co->res;
+Obj v__3518129_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, _3518123_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518129_37);
 return;
 }
 }
@@ -7267,42 +7276,42 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517320_37 = R[1];
-Obj _3517497_37 = makeNative(co->gc, 1, clofun31, 0, 1, _3517320_37);
-Obj _3518105_37 = PRIM_ISCONS(_3517320_37);
-if (True == _3518105_37) {
-Obj _3518106_37 = PRIM_CAR(_3517320_37);
-Obj _3518107_37 = PRIM_EQ(getBinding(co, packageID, 96).name, _3518106_37);
-if (True == _3518107_37) {
-Obj _3518108_37 = PRIM_CDR(_3517320_37);
-Obj _3518109_37 = PRIM_ISCONS(_3518108_37);
-if (True == _3518109_37) {
-Obj _3518110_37 = PRIM_CDR(_3517320_37);
-Obj _3518111_37 = PRIM_CAR(_3518110_37);
-Obj _3518112_37 = PRIM_CDR(_3517320_37);
-Obj _3518113_37 = PRIM_CDR(_3518112_37);
-Obj _3518114_37 = PRIM_EQ(Nil, _3518113_37);
-if (True == _3518114_37) {
+Obj v__3517326_37 = R[1];
+Obj v__3517503_37 = makeNative(co->gc, 1, clofun31, 0, 1, v__3517326_37);
+Obj v__3518111_37 = PRIM_ISCONS(v__3517326_37);
+if (True == v__3518111_37) {
+Obj v__3518112_37 = PRIM_CAR(v__3517326_37);
+Obj v__3518113_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518112_37);
+if (True == v__3518113_37) {
+Obj v__3518114_37 = PRIM_CDR(v__3517326_37);
+Obj v__3518115_37 = PRIM_ISCONS(v__3518114_37);
+if (True == v__3518115_37) {
+Obj v__3518116_37 = PRIM_CDR(v__3517326_37);
+Obj v__3518117_37 = PRIM_CAR(v__3518116_37);
+Obj v__3518118_37 = PRIM_CDR(v__3517326_37);
+Obj v__3518119_37 = PRIM_CDR(v__3518118_37);
+Obj v__3518120_37 = PRIM_EQ(Nil, v__3518119_37);
+if (True == v__3518120_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517497_37);
+coraCall0(co, v__3517503_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517497_37);
+coraCall0(co, v__3517503_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517497_37);
+coraCall0(co, v__3517503_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517497_37);
+coraCall0(co, v__3517503_37);
 return;
 }
 }
@@ -7313,41 +7322,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517498_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj _3518095_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518095_37) {
-Obj _3518096_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518097_37 = PRIM_EQ(getBinding(co, packageID, 94).name, _3518096_37);
-if (True == _3518097_37) {
-Obj _3518098_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518099_37 = PRIM_ISCONS(_3518098_37);
-if (True == _3518099_37) {
-Obj _3518100_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518101_37 = PRIM_CAR(_3518100_37);
-Obj _3518102_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518103_37 = PRIM_CDR(_3518102_37);
-Obj _3518104_37 = PRIM_EQ(Nil, _3518103_37);
-if (True == _3518104_37) {
+Obj v__3517504_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3518101_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518101_37) {
+Obj v__3518102_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518103_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3518102_37);
+if (True == v__3518103_37) {
+Obj v__3518104_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518105_37 = PRIM_ISCONS(v__3518104_37);
+if (True == v__3518105_37) {
+Obj v__3518106_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518107_37 = PRIM_CAR(v__3518106_37);
+Obj v__3518108_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518109_37 = PRIM_CDR(v__3518108_37);
+Obj v__3518110_37 = PRIM_EQ(Nil, v__3518109_37);
+if (True == v__3518110_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517498_37);
+coraCall0(co, v__3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517498_37);
+coraCall0(co, v__3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517498_37);
+coraCall0(co, v__3517504_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517498_37);
+coraCall0(co, v__3517504_37);
 return;
 }
 }
@@ -7358,41 +7367,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517499_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj _3518085_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518085_37) {
-Obj _3518086_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518087_37 = PRIM_EQ(getBinding(co, packageID, 91).name, _3518086_37);
-if (True == _3518087_37) {
-Obj _3518088_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518089_37 = PRIM_ISCONS(_3518088_37);
-if (True == _3518089_37) {
-Obj _3518090_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518091_37 = PRIM_CAR(_3518090_37);
-Obj _3518092_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518093_37 = PRIM_CDR(_3518092_37);
-Obj _3518094_37 = PRIM_EQ(Nil, _3518093_37);
-if (True == _3518094_37) {
+Obj v__3517505_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3518091_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518091_37) {
+Obj v__3518092_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518093_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518092_37);
+if (True == v__3518093_37) {
+Obj v__3518094_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518095_37 = PRIM_ISCONS(v__3518094_37);
+if (True == v__3518095_37) {
+Obj v__3518096_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518097_37 = PRIM_CAR(v__3518096_37);
+Obj v__3518098_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518099_37 = PRIM_CDR(v__3518098_37);
+Obj v__3518100_37 = PRIM_EQ(Nil, v__3518099_37);
+if (True == v__3518100_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517499_37);
+coraCall0(co, v__3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517499_37);
+coraCall0(co, v__3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517499_37);
+coraCall0(co, v__3517505_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517499_37);
+coraCall0(co, v__3517505_37);
 return;
 }
 }
@@ -7403,41 +7412,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517500_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj _3518075_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518075_37) {
-Obj _3518076_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518077_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518076_37);
-if (True == _3518077_37) {
-Obj _3518078_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518079_37 = PRIM_ISCONS(_3518078_37);
-if (True == _3518079_37) {
-Obj _3518080_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518081_37 = PRIM_CAR(_3518080_37);
-Obj _3518082_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518083_37 = PRIM_CDR(_3518082_37);
-Obj _3518084_37 = PRIM_EQ(Nil, _3518083_37);
-if (True == _3518084_37) {
+Obj v__3517506_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v__3518081_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518081_37) {
+Obj v__3518082_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518083_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518082_37);
+if (True == v__3518083_37) {
+Obj v__3518084_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518085_37 = PRIM_ISCONS(v__3518084_37);
+if (True == v__3518085_37) {
+Obj v__3518086_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518087_37 = PRIM_CAR(v__3518086_37);
+Obj v__3518088_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518089_37 = PRIM_CDR(v__3518088_37);
+Obj v__3518090_37 = PRIM_EQ(Nil, v__3518089_37);
+if (True == v__3518090_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517500_37);
+coraCall0(co, v__3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517500_37);
+coraCall0(co, v__3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517500_37);
+coraCall0(co, v__3517506_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517500_37);
+coraCall0(co, v__3517506_37);
 return;
 }
 }
@@ -7448,41 +7457,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517501_37 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
-Obj _3518065_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518065_37) {
-Obj _3518066_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518067_37 = PRIM_EQ(getBinding(co, packageID, 77).name, _3518066_37);
-if (True == _3518067_37) {
-Obj _3518068_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518069_37 = PRIM_ISCONS(_3518068_37);
-if (True == _3518069_37) {
-Obj _3518070_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518071_37 = PRIM_CAR(_3518070_37);
-Obj _3518072_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518073_37 = PRIM_CDR(_3518072_37);
-Obj _3518074_37 = PRIM_EQ(Nil, _3518073_37);
-if (True == _3518074_37) {
+Obj v__3517507_37 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
+Obj v__3518071_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518071_37) {
+Obj v__3518072_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518073_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518072_37);
+if (True == v__3518073_37) {
+Obj v__3518074_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518075_37 = PRIM_ISCONS(v__3518074_37);
+if (True == v__3518075_37) {
+Obj v__3518076_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518077_37 = PRIM_CAR(v__3518076_37);
+Obj v__3518078_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
+Obj v__3518080_37 = PRIM_EQ(Nil, v__3518079_37);
+if (True == v__3518080_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517501_37);
+coraCall0(co, v__3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517501_37);
+coraCall0(co, v__3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517501_37);
+coraCall0(co, v__3517507_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517501_37);
+coraCall0(co, v__3517507_37);
 return;
 }
 }
@@ -7493,50 +7502,50 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517502_37 = makeNative(co->gc, 1, clofun26, 0, 0);
-Obj _3518055_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518055_37) {
-Obj _3518056_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3518057_37 = PRIM_EQ(getBinding(co, packageID, 78).name, _3518056_37);
-if (True == _3518057_37) {
-Obj _3518058_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518059_37 = PRIM_ISCONS(_3518058_37);
-if (True == _3518059_37) {
-Obj _3518060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518061_37 = PRIM_CAR(_3518060_37);
-Obj _3517503_37 = _3518061_37;
-Obj _3518062_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518063_37 = PRIM_CDR(_3518062_37);
-R[1] = _3517502_37;
+Obj v__3517508_37 = makeNative(co->gc, 1, clofun26, 0, 0);
+Obj v__3518061_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518061_37) {
+Obj v__3518062_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518063_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518062_37);
+if (True == v__3518063_37) {
+Obj v__3518064_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518065_37 = PRIM_ISCONS(v__3518064_37);
+if (True == v__3518065_37) {
+Obj v__3518066_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518067_37 = PRIM_CAR(v__3518066_37);
+Obj v__3517509_37 = v__3518067_37;
+Obj v__3518068_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518069_37 = PRIM_CDR(v__3518068_37);
+R[1] = v__3517508_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517503_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517509_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517502_37);
+coraCall0(co, v__3517508_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517502_37);
+coraCall0(co, v__3517508_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517502_37);
+coraCall0(co, v__3517508_37);
 return;
 }
 }
 case 1:
 {
-Obj _3518064_37= co->res;
-Obj _3517502_37 = R[1];
-if (True == _3518064_37) {
+Obj v__3518070_37= co->res;
+Obj v__3517508_37 = R[1];
+if (True == v__3518070_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517502_37);
+coraCall0(co, v__3517508_37);
 return;
 }
 }
@@ -7557,46 +7566,46 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517315_37 = R[1];
-Obj _3517316_37 = R[2];
-Obj _3518044_37 = PRIM_EQ(Nil, _3517315_37);
-if (True == _3518044_37) {
+Obj v__3517321_37 = R[1];
+Obj v__3517322_37 = R[2];
+Obj v__3518050_37 = PRIM_EQ(Nil, v__3517321_37);
+if (True == v__3518050_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517492_37 = makeNative(co->gc, 2, clofun24, 0, 2, _3517315_37, _3517316_37);
-Obj _3518050_37 = PRIM_ISCONS(_3517315_37);
-if (True == _3518050_37) {
-Obj _3518051_37 = PRIM_CAR(_3517315_37);
-Obj _3517495_37 = _3518051_37;
-Obj _3518052_37 = PRIM_CDR(_3517315_37);
-Obj _3517496_37 = _3518052_37;
-R[1] = _3517496_37;
-R[2] = _3517316_37;
-R[3] = _3517492_37;
+Obj v__3517498_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3517321_37, v__3517322_37);
+Obj v__3518056_37 = PRIM_ISCONS(v__3517321_37);
+if (True == v__3518056_37) {
+Obj v__3518057_37 = PRIM_CAR(v__3517321_37);
+Obj v__3517501_37 = v__3518057_37;
+Obj v__3518058_37 = PRIM_CDR(v__3517321_37);
+Obj v__3517502_37 = v__3518058_37;
+R[1] = v__3517502_37;
+R[2] = v__3517322_37;
+R[3] = v__3517498_37;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517495_37, _3517316_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517501_37, v__3517322_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517492_37);
+coraCall0(co, v__3517498_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518053_37= co->res;
-Obj _3517496_37 = R[1];
-Obj _3517316_37 = R[2];
-Obj _3517492_37 = R[3];
-if (True == _3518053_37) {
+Obj v__3518059_37= co->res;
+Obj v__3517502_37 = R[1];
+Obj v__3517322_37 = R[2];
+Obj v__3517498_37 = R[3];
+if (True == v__3518059_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517496_37, _3517316_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517502_37, v__3517322_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517492_37);
+coraCall0(co, v__3517498_37);
 return;
 }
 }
@@ -7607,15 +7616,15 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518045_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518045_37) {
-Obj _3518046_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517493_37 = _3518046_37;
-Obj _3518047_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517494_37 = _3518047_37;
-R[1] = _3517493_37;
+Obj v__3518051_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518051_37) {
+Obj v__3518052_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517499_37 = v__3518052_37;
+Obj v__3518053_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517500_37 = v__3518053_37;
+R[1] = v__3517499_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), _3517494_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517500_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7625,10 +7634,10 @@ return;
 }
 case 1:
 {
-Obj _3518048_37= co->res;
-Obj _3517493_37 = R[1];
-Obj _3518049_37 = makeCons(co->gc, _3517493_37, _3518048_37);
-coraReturn(co, _3518049_37);
+Obj v__3518054_37= co->res;
+Obj v__3517499_37 = R[1];
+Obj v__3518055_37 = makeCons(co->gc, v__3517499_37, v__3518054_37);
+coraReturn(co, v__3518055_37);
 return;
 }
 }
@@ -7638,46 +7647,46 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517310_37 = R[1];
-Obj _3517311_37 = R[2];
-Obj _3518033_37 = PRIM_EQ(Nil, _3517310_37);
-if (True == _3518033_37) {
-coraReturn(co, _3517311_37);
+Obj v__3517316_37 = R[1];
+Obj v__3517317_37 = R[2];
+Obj v__3518039_37 = PRIM_EQ(Nil, v__3517316_37);
+if (True == v__3518039_37) {
+coraReturn(co, v__3517317_37);
 return;
 } else {
-Obj _3517487_37 = makeNative(co->gc, 2, clofun22, 0, 2, _3517310_37, _3517311_37);
-Obj _3518039_37 = PRIM_ISCONS(_3517310_37);
-if (True == _3518039_37) {
-Obj _3518040_37 = PRIM_CAR(_3517310_37);
-Obj _3517490_37 = _3518040_37;
-Obj _3518041_37 = PRIM_CDR(_3517310_37);
-Obj _3517491_37 = _3518041_37;
-R[1] = _3517491_37;
-R[2] = _3517311_37;
-R[3] = _3517487_37;
+Obj v__3517493_37 = makeNative(co->gc, 2, clofun22, 0, 2, v__3517316_37, v__3517317_37);
+Obj v__3518045_37 = PRIM_ISCONS(v__3517316_37);
+if (True == v__3518045_37) {
+Obj v__3518046_37 = PRIM_CAR(v__3517316_37);
+Obj v__3517496_37 = v__3518046_37;
+Obj v__3518047_37 = PRIM_CDR(v__3517316_37);
+Obj v__3517497_37 = v__3518047_37;
+R[1] = v__3517497_37;
+R[2] = v__3517317_37;
+R[3] = v__3517493_37;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), _3517490_37, _3517311_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517496_37, v__3517317_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517487_37);
+coraCall0(co, v__3517493_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518042_37= co->res;
-Obj _3517491_37 = R[1];
-Obj _3517311_37 = R[2];
-Obj _3517487_37 = R[3];
-if (True == _3518042_37) {
+Obj v__3518048_37= co->res;
+Obj v__3517497_37 = R[1];
+Obj v__3517317_37 = R[2];
+Obj v__3517493_37 = R[3];
+if (True == v__3518048_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517491_37, _3517311_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517497_37, v__3517317_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517487_37);
+coraCall0(co, v__3517493_37);
 return;
 }
 }
@@ -7688,15 +7697,15 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3518034_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3518034_37) {
-Obj _3518035_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517488_37 = _3518035_37;
-Obj _3518036_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517489_37 = _3518036_37;
-R[1] = _3517488_37;
+Obj v__3518040_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518040_37) {
+Obj v__3518041_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517494_37 = v__3518041_37;
+Obj v__3518042_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517495_37 = v__3518042_37;
+R[1] = v__3517494_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), _3517489_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517495_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7706,10 +7715,10 @@ return;
 }
 case 1:
 {
-Obj _3518037_37= co->res;
-Obj _3517488_37 = R[1];
-Obj _3518038_37 = makeCons(co->gc, _3517488_37, _3518037_37);
-coraReturn(co, _3518038_37);
+Obj v__3518043_37= co->res;
+Obj v__3517494_37 = R[1];
+Obj v__3518044_37 = makeCons(co->gc, v__3517494_37, v__3518043_37);
+coraReturn(co, v__3518044_37);
 return;
 }
 }
@@ -7719,66 +7728,66 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517296_37 = R[1];
-Obj _3517297_37 = R[2];
-Obj _3517298_37 = R[3];
-Obj _3517455_37 = makeNative(co->gc, 2, clofun20, 1, 3, _3517296_37, _3517298_37, _3517297_37);
-R[1] = _3517298_37;
-R[2] = _3517455_37;
+Obj v__3517302_37 = R[1];
+Obj v__3517303_37 = R[2];
+Obj v__3517304_37 = R[3];
+Obj v__3517461_37 = makeNative(co->gc, 2, clofun20, 1, 3, v__3517302_37, v__3517304_37, v__3517303_37);
+R[1] = v__3517304_37;
+R[2] = v__3517461_37;
 saveCont(co, clofun21, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), _3517298_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517304_37);
 return;
 }
 case 1:
 {
-Obj _3518031_37= co->res;
-Obj _3517455_37 = R[1];
-if (True == _3518031_37) {
+Obj v__3518037_37= co->res;
+Obj v__3517461_37 = R[1];
+if (True == v__3518037_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517455_37, True);
+coraCall1(co, v__3517461_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, _3517455_37, False);
+coraCall1(co, v__3517461_37, False);
 return;
 }
 }
 case 2:
 {
-Obj _3518030_37= co->res;
-Obj _3517298_37 = R[1];
-Obj _3517455_37 = R[2];
-if (True == _3518030_37) {
+Obj v__3518036_37= co->res;
+Obj v__3517304_37 = R[1];
+Obj v__3517461_37 = R[2];
+if (True == v__3518036_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517455_37, True);
+coraCall1(co, v__3517461_37, True);
 return;
 } else {
-R[1] = _3517455_37;
+R[1] = v__3517461_37;
 saveCont(co, clofun21, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517298_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517304_37);
 return;
 }
 }
 case 3:
 {
-Obj _3518028_37= co->res;
-Obj _3517298_37 = R[1];
-Obj _3517455_37 = R[2];
-if (True == _3518028_37) {
+Obj v__3518034_37= co->res;
+Obj v__3517304_37 = R[1];
+Obj v__3517461_37 = R[2];
+if (True == v__3518034_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517455_37, True);
+coraCall1(co, v__3517461_37, True);
 return;
 } else {
-Obj _3518029_37 = primIsString(_3517298_37);
-if (True == _3518029_37) {
+Obj v__3518035_37 = primIsString(v__3517304_37);
+if (True == v__3518035_37) {
 co->ctx.sp = R;
-coraCall1(co, _3517455_37, True);
+coraCall1(co, v__3517461_37, True);
 return;
 } else {
-R[1] = _3517298_37;
-R[2] = _3517455_37;
+R[1] = v__3517304_37;
+R[2] = v__3517461_37;
 saveCont(co, clofun21, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), _3517298_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3517304_37);
 return;
 }
 }
@@ -7790,62 +7799,62 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517454_37 = R[1];
-if (True == _3517454_37) {
-Obj _3517833_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj _3517834_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3517833_37);
-coraReturn(co, _3517834_37);
-return;
-} else {
-Obj _3517456_37 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj _3518015_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == _3518015_37) {
-Obj _3518016_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj _3518017_37 = PRIM_EQ(getBinding(co, packageID, 85).name, _3518016_37);
-if (True == _3518017_37) {
-Obj _3518018_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518019_37 = PRIM_ISCONS(_3518018_37);
-if (True == _3518019_37) {
-Obj _3518020_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518021_37 = PRIM_CAR(_3518020_37);
-Obj _3517486_37 = _3518021_37;
-Obj _3518022_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj _3518023_37 = PRIM_CDR(_3518022_37);
-Obj _3518024_37 = PRIM_EQ(Nil, _3518023_37);
-if (True == _3518024_37) {
-R[1] = _3517486_37;
+Obj v__3517460_37 = R[1];
+if (True == v__3517460_37) {
+Obj v__3517839_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
+Obj v__3517840_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517839_37);
+coraReturn(co, v__3517840_37);
+return;
+} else {
+Obj v__3517462_37 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3518021_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518021_37) {
+Obj v__3518022_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518023_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518022_37);
+if (True == v__3518023_37) {
+Obj v__3518024_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518025_37 = PRIM_ISCONS(v__3518024_37);
+if (True == v__3518025_37) {
+Obj v__3518026_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518027_37 = PRIM_CAR(v__3518026_37);
+Obj v__3517492_37 = v__3518027_37;
+Obj v__3518028_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518029_37 = PRIM_CDR(v__3518028_37);
+Obj v__3518030_37 = PRIM_EQ(Nil, v__3518029_37);
+if (True == v__3518030_37) {
+R[1] = v__3517492_37;
 saveCont(co, clofun20, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), _3517486_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517492_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517456_37);
+coraCall0(co, v__3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517456_37);
+coraCall0(co, v__3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517456_37);
+coraCall0(co, v__3517462_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517456_37);
+coraCall0(co, v__3517462_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3518025_37= co->res;
-Obj _3517486_37 = R[1];
-Obj _3518026_37 = makeCons(co->gc, _3517486_37, Nil);
-Obj _3518027_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, _3518026_37);
-coraReturn(co, _3518027_37);
+Obj v__3518031_37= co->res;
+Obj v__3517492_37 = R[1];
+Obj v__3518032_37 = makeCons(co->gc, v__3517492_37, Nil);
+Obj v__3518033_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518032_37);
+coraReturn(co, v__3518033_37);
 return;
 }
 }
@@ -7855,85 +7864,85 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517835_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == _3517835_37) {
+Obj v__3517841_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3517841_37) {
 saveCont(co, clofun19, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj _3517458_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517991_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517991_37) {
-Obj _3517992_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517993_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517992_37);
-if (True == _3517993_37) {
-Obj _3517994_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517995_37 = PRIM_ISCONS(_3517994_37);
-if (True == _3517995_37) {
-Obj _3517996_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517997_37 = PRIM_CAR(_3517996_37);
-Obj _3517484_37 = _3517997_37;
-Obj _3517998_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517999_37 = PRIM_CDR(_3517998_37);
-Obj _3518000_37 = PRIM_ISCONS(_3517999_37);
-if (True == _3518000_37) {
-Obj _3518001_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518002_37 = PRIM_CDR(_3518001_37);
-Obj _3518003_37 = PRIM_CAR(_3518002_37);
-Obj _3517485_37 = _3518003_37;
-Obj _3518004_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3518005_37 = PRIM_CDR(_3518004_37);
-Obj _3518006_37 = PRIM_CDR(_3518005_37);
-Obj _3518007_37 = PRIM_EQ(Nil, _3518006_37);
-if (True == _3518007_37) {
-R[1] = _3517485_37;
-R[2] = _3517484_37;
+Obj v__3517464_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517997_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517997_37) {
+Obj v__3517998_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517999_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517998_37);
+if (True == v__3517999_37) {
+Obj v__3518000_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518001_37 = PRIM_ISCONS(v__3518000_37);
+if (True == v__3518001_37) {
+Obj v__3518002_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518003_37 = PRIM_CAR(v__3518002_37);
+Obj v__3517490_37 = v__3518003_37;
+Obj v__3518004_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518005_37 = PRIM_CDR(v__3518004_37);
+Obj v__3518006_37 = PRIM_ISCONS(v__3518005_37);
+if (True == v__3518006_37) {
+Obj v__3518007_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518008_37 = PRIM_CDR(v__3518007_37);
+Obj v__3518009_37 = PRIM_CAR(v__3518008_37);
+Obj v__3517491_37 = v__3518009_37;
+Obj v__3518010_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518011_37 = PRIM_CDR(v__3518010_37);
+Obj v__3518012_37 = PRIM_CDR(v__3518011_37);
+Obj v__3518013_37 = PRIM_EQ(Nil, v__3518012_37);
+if (True == v__3518013_37) {
+R[1] = v__3517491_37;
+R[2] = v__3517490_37;
 saveCont(co, clofun19, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun18, 1, 0), _3517484_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun18, 1, 0), v__3517490_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517458_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517458_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517458_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517458_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517458_37);
+coraCall0(co, v__3517464_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj _3517839_37= co->res;
-Obj _3517840_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj _3517841_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, _3517840_37);
-coraReturn(co, _3517841_37);
+Obj v__3517845_37= co->res;
+Obj v__3517846_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3517847_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3517846_37);
+coraReturn(co, v__3517847_37);
 return;
 }
 case 2:
 {
-Obj _3517836_37= co->res;
-Obj _3517457_37 = _3517836_37;
-Obj _3517837_37 = PRIM_ISCONS(_3517457_37);
-if (True == _3517837_37) {
-Obj _3517838_37 = PRIM_CDR(_3517457_37);
-coraReturn(co, _3517838_37);
+Obj v__3517842_37= co->res;
+Obj v__3517463_37 = v__3517842_37;
+Obj v__3517843_37 = PRIM_ISCONS(v__3517463_37);
+if (True == v__3517843_37) {
+Obj v__3517844_37 = PRIM_CDR(v__3517463_37);
+coraReturn(co, v__3517844_37);
 return;
 } else {
 saveCont(co, clofun19, 1, R);
@@ -7943,33 +7952,33 @@ return;
 }
 case 3:
 {
-Obj _3518011_37= co->res;
-Obj _3517484_37 = R[1];
-Obj _3518012_37 = makeCons(co->gc, _3518011_37, Nil);
-Obj _3518013_37 = makeCons(co->gc, _3517484_37, _3518012_37);
-Obj _3518014_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3518013_37);
-coraReturn(co, _3518014_37);
+Obj v__3518017_37= co->res;
+Obj v__3517490_37 = R[1];
+Obj v__3518018_37 = makeCons(co->gc, v__3518017_37, Nil);
+Obj v__3518019_37 = makeCons(co->gc, v__3517490_37, v__3518018_37);
+Obj v__3518020_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518019_37);
+coraReturn(co, v__3518020_37);
 return;
 }
 case 4:
 {
-Obj _3518010_37= co->res;
-Obj _3517485_37 = R[1];
-Obj _3517484_37 = R[2];
-R[1] = _3517484_37;
+Obj v__3518016_37= co->res;
+Obj v__3517491_37 = R[1];
+Obj v__3517490_37 = R[2];
+R[1] = v__3517490_37;
 saveCont(co, clofun19, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3518010_37, closureRef(R[0], 2), _3517485_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518016_37, closureRef(R[0], 2), v__3517491_37);
 return;
 }
 case 5:
 {
-Obj _3518009_37= co->res;
-Obj _3517485_37 = R[1];
-Obj _3517484_37 = R[2];
-R[1] = _3517485_37;
-R[2] = _3517484_37;
+Obj v__3518015_37= co->res;
+Obj v__3517491_37 = R[1];
+Obj v__3517490_37 = R[2];
+R[1] = v__3517491_37;
+R[2] = v__3517490_37;
 saveCont(co, clofun19, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3518009_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518015_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -7979,9 +7988,9 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj _3518008_37 = makeCons(co->gc, x, x);
-coraReturn(co, _3518008_37);
+Obj v_x = R[1];
+Obj v__3518014_37 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, v__3518014_37);
 return;
 }
 }
@@ -7991,74 +8000,74 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517459_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517959_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517959_37) {
-Obj _3517960_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517961_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517960_37);
-if (True == _3517961_37) {
-Obj _3517962_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517963_37 = PRIM_ISCONS(_3517962_37);
-if (True == _3517963_37) {
-Obj _3517964_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517965_37 = PRIM_CAR(_3517964_37);
-Obj _3517966_37 = PRIM_ISCONS(_3517965_37);
-if (True == _3517966_37) {
-Obj _3517967_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517968_37 = PRIM_CAR(_3517967_37);
-Obj _3517969_37 = PRIM_CAR(_3517968_37);
-Obj _3517970_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517969_37);
-if (True == _3517970_37) {
-Obj _3517971_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517972_37 = PRIM_CAR(_3517971_37);
-Obj _3517973_37 = PRIM_CDR(_3517972_37);
-Obj _3517480_37 = _3517973_37;
-Obj _3517974_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517975_37 = PRIM_CDR(_3517974_37);
-Obj _3517481_37 = _3517975_37;
-Obj _3517976_37 = primGenSym(co);
-Obj _3517482_37 = _3517976_37;
-Obj _3517977_37 = primGenSym(co);
-Obj _3517483_37 = _3517977_37;
-Obj _3517978_37 = makeCons(co->gc, _3517483_37, Nil);
-Obj _3517979_37 = makeCons(co->gc, _3517483_37, _3517481_37);
-Obj _3517980_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517979_37);
-Obj _3517981_37 = makeCons(co->gc, _3517980_37, Nil);
-Obj _3517982_37 = makeCons(co->gc, _3517978_37, _3517981_37);
-Obj _3517983_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517982_37);
-Obj _3517984_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517480_37);
-Obj _3517985_37 = makeCons(co->gc, _3517984_37, Nil);
-Obj _3517986_37 = makeCons(co->gc, _3517482_37, _3517985_37);
-Obj _3517987_37 = makeCons(co->gc, _3517986_37, Nil);
-Obj _3517988_37 = makeCons(co->gc, _3517983_37, _3517987_37);
-Obj _3517989_37 = makeCons(co->gc, _3517482_37, _3517988_37);
-Obj _3517990_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517989_37);
+Obj v__3517465_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517965_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517965_37) {
+Obj v__3517966_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517967_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517966_37);
+if (True == v__3517967_37) {
+Obj v__3517968_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517969_37 = PRIM_ISCONS(v__3517968_37);
+if (True == v__3517969_37) {
+Obj v__3517970_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517971_37 = PRIM_CAR(v__3517970_37);
+Obj v__3517972_37 = PRIM_ISCONS(v__3517971_37);
+if (True == v__3517972_37) {
+Obj v__3517973_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517974_37 = PRIM_CAR(v__3517973_37);
+Obj v__3517975_37 = PRIM_CAR(v__3517974_37);
+Obj v__3517976_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517975_37);
+if (True == v__3517976_37) {
+Obj v__3517977_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517978_37 = PRIM_CAR(v__3517977_37);
+Obj v__3517979_37 = PRIM_CDR(v__3517978_37);
+Obj v__3517486_37 = v__3517979_37;
+Obj v__3517980_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517981_37 = PRIM_CDR(v__3517980_37);
+Obj v__3517487_37 = v__3517981_37;
+Obj v__3517982_37 = primGenSym(co);
+Obj v__3517488_37 = v__3517982_37;
+Obj v__3517983_37 = primGenSym(co);
+Obj v__3517489_37 = v__3517983_37;
+Obj v__3517984_37 = makeCons(co->gc, v__3517489_37, Nil);
+Obj v__3517985_37 = makeCons(co->gc, v__3517489_37, v__3517487_37);
+Obj v__3517986_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517985_37);
+Obj v__3517987_37 = makeCons(co->gc, v__3517986_37, Nil);
+Obj v__3517988_37 = makeCons(co->gc, v__3517984_37, v__3517987_37);
+Obj v__3517989_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517988_37);
+Obj v__3517990_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517486_37);
+Obj v__3517991_37 = makeCons(co->gc, v__3517990_37, Nil);
+Obj v__3517992_37 = makeCons(co->gc, v__3517488_37, v__3517991_37);
+Obj v__3517993_37 = makeCons(co->gc, v__3517992_37, Nil);
+Obj v__3517994_37 = makeCons(co->gc, v__3517989_37, v__3517993_37);
+Obj v__3517995_37 = makeCons(co->gc, v__3517488_37, v__3517994_37);
+Obj v__3517996_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517995_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517990_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517996_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517459_37);
+coraCall0(co, v__3517465_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517459_37);
+coraCall0(co, v__3517465_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517459_37);
+coraCall0(co, v__3517465_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517459_37);
+coraCall0(co, v__3517465_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517459_37);
+coraCall0(co, v__3517465_37);
 return;
 }
 }
@@ -8069,42 +8078,42 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517460_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517952_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517952_37) {
-Obj _3517953_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517954_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517953_37);
-if (True == _3517954_37) {
-Obj _3517955_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517479_37 = _3517955_37;
-R[1] = _3517479_37;
+Obj v__3517466_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517958_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517958_37) {
+Obj v__3517959_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517960_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517959_37);
+if (True == v__3517960_37) {
+Obj v__3517961_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517485_37 = v__3517961_37;
+R[1] = v__3517485_37;
 saveCont(co, clofun16, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517460_37);
+coraCall0(co, v__3517466_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517460_37);
+coraCall0(co, v__3517466_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517957_37= co->res;
-Obj _3517958_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517957_37);
-coraReturn(co, _3517958_37);
+Obj v__3517963_37= co->res;
+Obj v__3517964_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517963_37);
+coraReturn(co, v__3517964_37);
 return;
 }
 case 2:
 {
-Obj _3517956_37= co->res;
-Obj _3517479_37 = R[1];
+Obj v__3517962_37= co->res;
+Obj v__3517485_37 = R[1];
 saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517956_37, _3517479_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517962_37, v__3517485_37);
 return;
 }
 }
@@ -8114,78 +8123,78 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517461_37 = makeNative(co->gc, 4, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517930_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517930_37) {
-Obj _3517931_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517932_37 = PRIM_EQ(getBinding(co, packageID, 86).name, _3517931_37);
-if (True == _3517932_37) {
-Obj _3517933_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517934_37 = PRIM_ISCONS(_3517933_37);
-if (True == _3517934_37) {
-Obj _3517935_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517936_37 = PRIM_CAR(_3517935_37);
-Obj _3517477_37 = _3517936_37;
-Obj _3517937_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517938_37 = PRIM_CDR(_3517937_37);
-Obj _3517939_37 = PRIM_ISCONS(_3517938_37);
-if (True == _3517939_37) {
-Obj _3517940_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517941_37 = PRIM_CDR(_3517940_37);
-Obj _3517942_37 = PRIM_CAR(_3517941_37);
-Obj _3517478_37 = _3517942_37;
-Obj _3517943_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517944_37 = PRIM_CDR(_3517943_37);
-Obj _3517945_37 = PRIM_CDR(_3517944_37);
-Obj _3517946_37 = PRIM_EQ(Nil, _3517945_37);
-if (True == _3517946_37) {
-R[1] = _3517478_37;
+Obj v__3517467_37 = makeNative(co->gc, 4, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517936_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517936_37) {
+Obj v__3517937_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517938_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3517937_37);
+if (True == v__3517938_37) {
+Obj v__3517939_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517940_37 = PRIM_ISCONS(v__3517939_37);
+if (True == v__3517940_37) {
+Obj v__3517941_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517942_37 = PRIM_CAR(v__3517941_37);
+Obj v__3517483_37 = v__3517942_37;
+Obj v__3517943_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517944_37 = PRIM_CDR(v__3517943_37);
+Obj v__3517945_37 = PRIM_ISCONS(v__3517944_37);
+if (True == v__3517945_37) {
+Obj v__3517946_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517947_37 = PRIM_CDR(v__3517946_37);
+Obj v__3517948_37 = PRIM_CAR(v__3517947_37);
+Obj v__3517484_37 = v__3517948_37;
+Obj v__3517949_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517950_37 = PRIM_CDR(v__3517949_37);
+Obj v__3517951_37 = PRIM_CDR(v__3517950_37);
+Obj v__3517952_37 = PRIM_EQ(Nil, v__3517951_37);
+if (True == v__3517952_37) {
+R[1] = v__3517484_37;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517477_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517483_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517461_37);
+coraCall0(co, v__3517467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517461_37);
+coraCall0(co, v__3517467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517461_37);
+coraCall0(co, v__3517467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517461_37);
+coraCall0(co, v__3517467_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517461_37);
+coraCall0(co, v__3517467_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517948_37= co->res;
-Obj _3517947_37 = R[1];
-Obj _3517949_37 = makeCons(co->gc, _3517948_37, Nil);
-Obj _3517950_37 = makeCons(co->gc, _3517947_37, _3517949_37);
-Obj _3517951_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, _3517950_37);
-coraReturn(co, _3517951_37);
+Obj v__3517954_37= co->res;
+Obj v__3517953_37 = R[1];
+Obj v__3517955_37 = makeCons(co->gc, v__3517954_37, Nil);
+Obj v__3517956_37 = makeCons(co->gc, v__3517953_37, v__3517955_37);
+Obj v__3517957_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3517956_37);
+coraReturn(co, v__3517957_37);
 return;
 }
 case 2:
 {
-Obj _3517947_37= co->res;
-Obj _3517478_37 = R[1];
-R[1] = _3517947_37;
+Obj v__3517953_37= co->res;
+Obj v__3517484_37 = R[1];
+R[1] = v__3517953_37;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517478_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517484_37);
 return;
 }
 }
@@ -8195,105 +8204,105 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517462_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517895_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517895_37) {
-Obj _3517896_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517897_37 = PRIM_EQ(getBinding(co, packageID, 87).name, _3517896_37);
-if (True == _3517897_37) {
-Obj _3517898_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517899_37 = PRIM_ISCONS(_3517898_37);
-if (True == _3517899_37) {
-Obj _3517900_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517901_37 = PRIM_CAR(_3517900_37);
-Obj _3517473_37 = _3517901_37;
-Obj _3517902_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517903_37 = PRIM_CDR(_3517902_37);
-Obj _3517904_37 = PRIM_ISCONS(_3517903_37);
-if (True == _3517904_37) {
-Obj _3517905_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517906_37 = PRIM_CDR(_3517905_37);
-Obj _3517907_37 = PRIM_CAR(_3517906_37);
-Obj _3517474_37 = _3517907_37;
-Obj _3517908_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517909_37 = PRIM_CDR(_3517908_37);
-Obj _3517910_37 = PRIM_CDR(_3517909_37);
-Obj _3517911_37 = PRIM_ISCONS(_3517910_37);
-if (True == _3517911_37) {
-Obj _3517912_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517913_37 = PRIM_CDR(_3517912_37);
-Obj _3517914_37 = PRIM_CDR(_3517913_37);
-Obj _3517915_37 = PRIM_CAR(_3517914_37);
-Obj _3517475_37 = _3517915_37;
-Obj _3517916_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517917_37 = PRIM_CDR(_3517916_37);
-Obj _3517918_37 = PRIM_CDR(_3517917_37);
-Obj _3517919_37 = PRIM_CDR(_3517918_37);
-Obj _3517920_37 = PRIM_EQ(Nil, _3517919_37);
-if (True == _3517920_37) {
-Obj _3517921_37 = primGenSym(co);
-Obj _3517476_37 = _3517921_37;
-R[1] = _3517473_37;
-R[2] = _3517475_37;
-R[3] = _3517476_37;
+Obj v__3517468_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517901_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517901_37) {
+Obj v__3517902_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517903_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3517902_37);
+if (True == v__3517903_37) {
+Obj v__3517904_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517905_37 = PRIM_ISCONS(v__3517904_37);
+if (True == v__3517905_37) {
+Obj v__3517906_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517907_37 = PRIM_CAR(v__3517906_37);
+Obj v__3517479_37 = v__3517907_37;
+Obj v__3517908_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517909_37 = PRIM_CDR(v__3517908_37);
+Obj v__3517910_37 = PRIM_ISCONS(v__3517909_37);
+if (True == v__3517910_37) {
+Obj v__3517911_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517912_37 = PRIM_CDR(v__3517911_37);
+Obj v__3517913_37 = PRIM_CAR(v__3517912_37);
+Obj v__3517480_37 = v__3517913_37;
+Obj v__3517914_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517915_37 = PRIM_CDR(v__3517914_37);
+Obj v__3517916_37 = PRIM_CDR(v__3517915_37);
+Obj v__3517917_37 = PRIM_ISCONS(v__3517916_37);
+if (True == v__3517917_37) {
+Obj v__3517918_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517919_37 = PRIM_CDR(v__3517918_37);
+Obj v__3517920_37 = PRIM_CDR(v__3517919_37);
+Obj v__3517921_37 = PRIM_CAR(v__3517920_37);
+Obj v__3517481_37 = v__3517921_37;
+Obj v__3517922_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517923_37 = PRIM_CDR(v__3517922_37);
+Obj v__3517924_37 = PRIM_CDR(v__3517923_37);
+Obj v__3517925_37 = PRIM_CDR(v__3517924_37);
+Obj v__3517926_37 = PRIM_EQ(Nil, v__3517925_37);
+if (True == v__3517926_37) {
+Obj v__3517927_37 = primGenSym(co);
+Obj v__3517482_37 = v__3517927_37;
+R[1] = v__3517479_37;
+R[2] = v__3517481_37;
+R[3] = v__3517482_37;
 saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517474_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517480_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517462_37);
+coraCall0(co, v__3517468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517462_37);
+coraCall0(co, v__3517468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517462_37);
+coraCall0(co, v__3517468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517462_37);
+coraCall0(co, v__3517468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517462_37);
+coraCall0(co, v__3517468_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517462_37);
+coraCall0(co, v__3517468_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517925_37= co->res;
-Obj _3517922_37 = R[1];
-Obj _3517476_37 = R[2];
-Obj _3517926_37 = makeCons(co->gc, _3517925_37, Nil);
-Obj _3517927_37 = makeCons(co->gc, _3517922_37, _3517926_37);
-Obj _3517928_37 = makeCons(co->gc, _3517476_37, _3517927_37);
-Obj _3517929_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517928_37);
-coraReturn(co, _3517929_37);
+Obj v__3517931_37= co->res;
+Obj v__3517928_37 = R[1];
+Obj v__3517482_37 = R[2];
+Obj v__3517932_37 = makeCons(co->gc, v__3517931_37, Nil);
+Obj v__3517933_37 = makeCons(co->gc, v__3517928_37, v__3517932_37);
+Obj v__3517934_37 = makeCons(co->gc, v__3517482_37, v__3517933_37);
+Obj v__3517935_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517934_37);
+coraReturn(co, v__3517935_37);
 return;
 }
 case 2:
 {
-Obj _3517922_37= co->res;
-Obj _3517473_37 = R[1];
-Obj _3517475_37 = R[2];
-Obj _3517476_37 = R[3];
-Obj _3517923_37 = makeCons(co->gc, _3517473_37, _3517476_37);
-Obj _3517924_37 = makeCons(co->gc, _3517923_37, closureRef(R[0], 1));
-R[1] = _3517922_37;
-R[2] = _3517476_37;
+Obj v__3517928_37= co->res;
+Obj v__3517479_37 = R[1];
+Obj v__3517481_37 = R[2];
+Obj v__3517482_37 = R[3];
+Obj v__3517929_37 = makeCons(co->gc, v__3517479_37, v__3517482_37);
+Obj v__3517930_37 = makeCons(co->gc, v__3517929_37, closureRef(R[0], 1));
+R[1] = v__3517928_37;
+R[2] = v__3517482_37;
 saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), _3517924_37, closureRef(R[0], 2), _3517475_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3517930_37, closureRef(R[0], 2), v__3517481_37);
 return;
 }
 }
@@ -8303,85 +8312,85 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517463_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj _3517863_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517863_37) {
-Obj _3517864_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517865_37 = PRIM_ISCONS(_3517864_37);
-if (True == _3517865_37) {
-Obj _3517866_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517867_37 = PRIM_CAR(_3517866_37);
-Obj _3517868_37 = PRIM_EQ(getBinding(co, packageID, 90).name, _3517867_37);
-if (True == _3517868_37) {
-Obj _3517869_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517870_37 = PRIM_CDR(_3517869_37);
-Obj _3517470_37 = _3517870_37;
-Obj _3517871_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517872_37 = PRIM_ISCONS(_3517871_37);
-if (True == _3517872_37) {
-Obj _3517873_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517874_37 = PRIM_CAR(_3517873_37);
-Obj _3517875_37 = PRIM_ISCONS(_3517874_37);
-if (True == _3517875_37) {
-Obj _3517876_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517877_37 = PRIM_CAR(_3517876_37);
-Obj _3517878_37 = PRIM_CAR(_3517877_37);
-Obj _3517879_37 = PRIM_EQ(getBinding(co, packageID, 88).name, _3517878_37);
-if (True == _3517879_37) {
-Obj _3517880_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517881_37 = PRIM_CAR(_3517880_37);
-Obj _3517882_37 = PRIM_CDR(_3517881_37);
-Obj _3517471_37 = _3517882_37;
-Obj _3517883_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517884_37 = PRIM_CDR(_3517883_37);
-Obj _3517885_37 = PRIM_EQ(Nil, _3517884_37);
-if (True == _3517885_37) {
-Obj _3517886_37 = primGenSym(co);
-Obj _3517472_37 = _3517886_37;
-Obj _3517887_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517470_37);
-Obj _3517888_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, _3517471_37);
-Obj _3517889_37 = makeCons(co->gc, _3517888_37, Nil);
-Obj _3517890_37 = makeCons(co->gc, _3517472_37, _3517889_37);
-Obj _3517891_37 = makeCons(co->gc, _3517890_37, Nil);
-Obj _3517892_37 = makeCons(co->gc, _3517887_37, _3517891_37);
-Obj _3517893_37 = makeCons(co->gc, _3517472_37, _3517892_37);
-Obj _3517894_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, _3517893_37);
+Obj v__3517469_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517869_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517869_37) {
+Obj v__3517870_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517871_37 = PRIM_ISCONS(v__3517870_37);
+if (True == v__3517871_37) {
+Obj v__3517872_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517873_37 = PRIM_CAR(v__3517872_37);
+Obj v__3517874_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517873_37);
+if (True == v__3517874_37) {
+Obj v__3517875_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517876_37 = PRIM_CDR(v__3517875_37);
+Obj v__3517476_37 = v__3517876_37;
+Obj v__3517877_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517878_37 = PRIM_ISCONS(v__3517877_37);
+if (True == v__3517878_37) {
+Obj v__3517879_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517880_37 = PRIM_CAR(v__3517879_37);
+Obj v__3517881_37 = PRIM_ISCONS(v__3517880_37);
+if (True == v__3517881_37) {
+Obj v__3517882_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517883_37 = PRIM_CAR(v__3517882_37);
+Obj v__3517884_37 = PRIM_CAR(v__3517883_37);
+Obj v__3517885_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517884_37);
+if (True == v__3517885_37) {
+Obj v__3517886_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517887_37 = PRIM_CAR(v__3517886_37);
+Obj v__3517888_37 = PRIM_CDR(v__3517887_37);
+Obj v__3517477_37 = v__3517888_37;
+Obj v__3517889_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517890_37 = PRIM_CDR(v__3517889_37);
+Obj v__3517891_37 = PRIM_EQ(Nil, v__3517890_37);
+if (True == v__3517891_37) {
+Obj v__3517892_37 = primGenSym(co);
+Obj v__3517478_37 = v__3517892_37;
+Obj v__3517893_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517476_37);
+Obj v__3517894_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517477_37);
+Obj v__3517895_37 = makeCons(co->gc, v__3517894_37, Nil);
+Obj v__3517896_37 = makeCons(co->gc, v__3517478_37, v__3517895_37);
+Obj v__3517897_37 = makeCons(co->gc, v__3517896_37, Nil);
+Obj v__3517898_37 = makeCons(co->gc, v__3517893_37, v__3517897_37);
+Obj v__3517899_37 = makeCons(co->gc, v__3517478_37, v__3517898_37);
+Obj v__3517900_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517899_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517894_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517900_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517463_37);
+coraCall0(co, v__3517469_37);
 return;
 }
 }
@@ -8392,90 +8401,90 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517464_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj _3517843_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517843_37) {
-Obj _3517844_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517465_37 = _3517844_37;
-Obj _3517845_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517466_37 = _3517845_37;
-R[1] = _3517465_37;
-R[2] = _3517466_37;
-R[3] = _3517464_37;
+Obj v__3517470_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
+Obj v__3517849_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517849_37) {
+Obj v__3517850_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517471_37 = v__3517850_37;
+Obj v__3517851_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517472_37 = v__3517851_37;
+R[1] = v__3517471_37;
+R[2] = v__3517472_37;
+R[3] = v__3517470_37;
 saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), _3517465_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517471_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517464_37);
+coraCall0(co, v__3517470_37);
 return;
 }
 }
 case 1:
 {
-Obj _3517853_37= co->res;
-Obj _3517851_37 = R[1];
-Obj _3517854_37 = makeCons(co->gc, _3517851_37, _3517853_37);
-coraReturn(co, _3517854_37);
+Obj v__3517859_37= co->res;
+Obj v__3517857_37 = R[1];
+Obj v__3517860_37 = makeCons(co->gc, v__3517857_37, v__3517859_37);
+coraReturn(co, v__3517860_37);
 return;
 }
 case 2:
 {
-Obj _3517852_37= co->res;
-Obj _3517466_37 = R[1];
-Obj _3517851_37 = R[2];
-R[1] = _3517851_37;
+Obj v__3517858_37= co->res;
+Obj v__3517472_37 = R[1];
+Obj v__3517857_37 = R[2];
+R[1] = v__3517857_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517852_37, _3517466_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517858_37, v__3517472_37);
 return;
 }
 case 3:
 {
-Obj _3517859_37= co->res;
-Obj _3517469_37 = R[1];
-Obj _3517860_37 = makeCons(co->gc, _3517859_37, Nil);
-Obj _3517861_37 = makeCons(co->gc, _3517469_37, _3517860_37);
-Obj _3517862_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, _3517861_37);
+Obj v__3517865_37= co->res;
+Obj v__3517475_37 = R[1];
+Obj v__3517866_37 = makeCons(co->gc, v__3517865_37, Nil);
+Obj v__3517867_37 = makeCons(co->gc, v__3517475_37, v__3517866_37);
+Obj v__3517868_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517867_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), _3517862_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517868_37);
 return;
 }
 case 4:
 {
-Obj _3517857_37= co->res;
-Obj _3517465_37 = R[1];
-Obj _3517466_37 = R[2];
-Obj _3517469_37 = _3517857_37;
-Obj _3517858_37 = makeCons(co->gc, _3517465_37, _3517466_37);
-R[1] = _3517469_37;
+Obj v__3517863_37= co->res;
+Obj v__3517471_37 = R[1];
+Obj v__3517472_37 = R[2];
+Obj v__3517475_37 = v__3517863_37;
+Obj v__3517864_37 = makeCons(co->gc, v__3517471_37, v__3517472_37);
+R[1] = v__3517475_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), _3517858_37, _3517469_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3517864_37, v__3517475_37);
 return;
 }
 case 5:
 {
-Obj _3517848_37= co->res;
-Obj _3517467_37 = R[1];
-Obj _3517465_37 = R[2];
-Obj _3517466_37 = R[3];
-Obj _3517468_37 = _3517848_37;
-Obj _3517849_37 = PRIM_EQ(_3517467_37, _3517468_37);
-if (True == _3517849_37) {
-Obj _3517850_37 = makeCons(co->gc, _3517465_37, Nil);
-Obj _3517851_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, _3517850_37);
-R[1] = _3517466_37;
-R[2] = _3517851_37;
+Obj v__3517854_37= co->res;
+Obj v__3517473_37 = R[1];
+Obj v__3517471_37 = R[2];
+Obj v__3517472_37 = R[3];
+Obj v__3517474_37 = v__3517854_37;
+Obj v__3517855_37 = PRIM_EQ(v__3517473_37, v__3517474_37);
+if (True == v__3517855_37) {
+Obj v__3517856_37 = makeCons(co->gc, v__3517471_37, Nil);
+Obj v__3517857_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3517856_37);
+R[1] = v__3517472_37;
+R[2] = v__3517857_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
-Obj _3517855_37 = PRIM_GT(_3517467_37, _3517468_37);
-if (True == _3517855_37) {
-Obj _3517856_37 = PRIM_SUB(_3517467_37, _3517468_37);
-R[1] = _3517465_37;
-R[2] = _3517466_37;
+Obj v__3517861_37 = PRIM_GT(v__3517473_37, v__3517474_37);
+if (True == v__3517861_37) {
+Obj v__3517862_37 = PRIM_SUB(v__3517473_37, v__3517474_37);
+R[1] = v__3517471_37;
+R[2] = v__3517472_37;
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517856_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517862_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8486,32 +8495,32 @@ return;
 }
 case 6:
 {
-Obj _3517847_37= co->res;
-Obj _3517465_37 = R[1];
-Obj _3517466_37 = R[2];
-Obj _3517467_37 = _3517847_37;
-R[1] = _3517467_37;
-R[2] = _3517465_37;
-R[3] = _3517466_37;
+Obj v__3517853_37= co->res;
+Obj v__3517471_37 = R[1];
+Obj v__3517472_37 = R[2];
+Obj v__3517473_37 = v__3517853_37;
+R[1] = v__3517473_37;
+R[2] = v__3517471_37;
+R[3] = v__3517472_37;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), _3517466_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517472_37);
 return;
 }
 case 7:
 {
-Obj _3517846_37= co->res;
-Obj _3517465_37 = R[1];
-Obj _3517466_37 = R[2];
-Obj _3517464_37 = R[3];
-if (True == _3517846_37) {
-R[1] = _3517465_37;
-R[2] = _3517466_37;
+Obj v__3517852_37= co->res;
+Obj v__3517471_37 = R[1];
+Obj v__3517472_37 = R[2];
+Obj v__3517470_37 = R[3];
+if (True == v__3517852_37) {
+R[1] = v__3517471_37;
+R[2] = v__3517472_37;
 saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), _3517465_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3517471_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517464_37);
+coraCall0(co, v__3517470_37);
 return;
 }
 }
@@ -8528,9 +8537,9 @@ return;
 }
 case 1:
 {
-Obj _3517842_37= co->res;
+Obj v__3517848_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), _3517842_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517848_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8540,18 +8549,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517292_37 = R[1];
-Obj _3517293_37 = R[2];
-Obj _3517828_37 = PRIM_EQ(MAKE_NUMBER(0), _3517292_37);
-if (True == _3517828_37) {
-coraReturn(co, _3517293_37);
+Obj v__3517298_37 = R[1];
+Obj v__3517299_37 = R[2];
+Obj v__3517834_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517298_37);
+if (True == v__3517834_37) {
+coraReturn(co, v__3517299_37);
 return;
 } else {
-Obj _3517829_37 = PRIM_SUB(_3517292_37, MAKE_NUMBER(1));
-Obj _3517830_37 = primGenSym(co);
-Obj _3517831_37 = makeCons(co->gc, _3517830_37, _3517293_37);
+Obj v__3517835_37 = PRIM_SUB(v__3517298_37, MAKE_NUMBER(1));
+Obj v__3517836_37 = primGenSym(co);
+Obj v__3517837_37 = makeCons(co->gc, v__3517836_37, v__3517299_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), _3517829_37, _3517831_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517835_37, v__3517837_37);
 return;
 }
 }
@@ -8562,31 +8571,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj _3517826_37= co->res;
-Obj _3517452_37 = R[1];
-if (True == _3517826_37) {
+Obj v__3517832_37= co->res;
+Obj v__3517458_37 = R[1];
+if (True == v__3517832_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), _3517452_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517458_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517825_37= co->res;
-Obj _3517452_37 = _3517825_37;
-R[1] = _3517452_37;
+Obj v__3517831_37= co->res;
+Obj v__3517458_37 = v__3517831_37;
+R[1] = v__3517458_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517452_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517458_37);
 return;
 }
 }
@@ -8596,31 +8605,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj _3517823_37= co->res;
-Obj _3517451_37 = R[1];
-if (True == _3517823_37) {
+Obj v__3517829_37= co->res;
+Obj v__3517457_37 = R[1];
+if (True == v__3517829_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), _3517451_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517457_37);
 return;
 }
 }
 case 2:
 {
-Obj _3517822_37= co->res;
-Obj _3517451_37 = _3517822_37;
-R[1] = _3517451_37;
+Obj v__3517828_37= co->res;
+Obj v__3517457_37 = v__3517828_37;
+R[1] = v__3517457_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517451_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517457_37);
 return;
 }
 }
@@ -8630,23 +8639,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
+Obj v_x = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj _3517819_37= co->res;
-Obj _3517820_37 = primNot(_3517819_37);
-coraReturn(co, _3517820_37);
+Obj v__3517825_37= co->res;
+Obj v__3517826_37 = primNot(v__3517825_37);
+coraReturn(co, v__3517826_37);
 return;
 }
 case 2:
 {
-Obj _3517818_37= co->res;
+Obj v__3517824_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), _3517818_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517824_37);
 return;
 }
 }
@@ -8656,23 +8665,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517288_37 = R[1];
-Obj _3517289_37 = R[2];
-Obj _3517742_37 = PRIM_EQ(Nil, _3517289_37);
-if (True == _3517742_37) {
+Obj v__3517294_37 = R[1];
+Obj v__3517295_37 = R[2];
+Obj v__3517748_37 = PRIM_EQ(Nil, v__3517295_37);
+if (True == v__3517748_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj _3517743_37 = PRIM_ISCONS(_3517289_37);
-if (True == _3517743_37) {
-Obj _3517744_37 = PRIM_CAR(_3517289_37);
-Obj _3517449_37 = _3517744_37;
-Obj _3517745_37 = PRIM_CDR(_3517289_37);
-Obj _3517450_37 = _3517745_37;
-R[1] = _3517288_37;
-R[2] = _3517450_37;
+Obj v__3517749_37 = PRIM_ISCONS(v__3517295_37);
+if (True == v__3517749_37) {
+Obj v__3517750_37 = PRIM_CAR(v__3517295_37);
+Obj v__3517455_37 = v__3517750_37;
+Obj v__3517751_37 = PRIM_CDR(v__3517295_37);
+Obj v__3517456_37 = v__3517751_37;
+R[1] = v__3517294_37;
+R[2] = v__3517456_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), _3517288_37, _3517449_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517294_37, v__3517455_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8683,13 +8692,13 @@ return;
 }
 case 1:
 {
-Obj _3517746_37= co->res;
-Obj _3517288_37 = R[1];
-Obj _3517450_37 = R[2];
-Obj _3517747_37 = PRIM_LT(_3517746_37, MAKE_NUMBER(0));
-if (True == _3517747_37) {
+Obj v__3517752_37= co->res;
+Obj v__3517294_37 = R[1];
+Obj v__3517456_37 = R[2];
+Obj v__3517753_37 = PRIM_LT(v__3517752_37, MAKE_NUMBER(0));
+if (True == v__3517753_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), _3517288_37, _3517450_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3517294_37, v__3517456_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8703,10 +8712,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj x = R[1];
-Obj l = R[2];
+Obj v_x = R[1];
+Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), x, l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), v_x, v_l);
 return;
 }
 }
@@ -8716,32 +8725,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517282_37 = R[1];
-Obj _3517283_37 = R[2];
-Obj _3517284_37 = R[3];
-Obj _3517731_37 = PRIM_EQ(Nil, _3517284_37);
-if (True == _3517731_37) {
+Obj v__3517288_37 = R[1];
+Obj v__3517289_37 = R[2];
+Obj v__3517290_37 = R[3];
+Obj v__3517737_37 = PRIM_EQ(Nil, v__3517290_37);
+if (True == v__3517737_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj _3517446_37 = makeNative(co->gc, 1, clofun3, 0, 3, _3517284_37, _3517282_37, _3517283_37);
-Obj _3517736_37 = PRIM_ISCONS(_3517284_37);
-if (True == _3517736_37) {
-Obj _3517737_37 = PRIM_CAR(_3517284_37);
-Obj _3517448_37 = _3517737_37;
-Obj _3517738_37 = PRIM_CDR(_3517284_37);
-Obj _3517739_37 = PRIM_EQ(_3517283_37, _3517448_37);
-if (True == _3517739_37) {
-coraReturn(co, _3517282_37);
+Obj v__3517452_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517290_37, v__3517288_37, v__3517289_37);
+Obj v__3517742_37 = PRIM_ISCONS(v__3517290_37);
+if (True == v__3517742_37) {
+Obj v__3517743_37 = PRIM_CAR(v__3517290_37);
+Obj v__3517454_37 = v__3517743_37;
+Obj v__3517744_37 = PRIM_CDR(v__3517290_37);
+Obj v__3517745_37 = PRIM_EQ(v__3517289_37, v__3517454_37);
+if (True == v__3517745_37) {
+coraReturn(co, v__3517288_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517446_37);
+coraCall0(co, v__3517452_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517446_37);
+coraCall0(co, v__3517452_37);
 return;
 }
 }
@@ -8753,14 +8762,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517732_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517732_37) {
-Obj _3517733_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517734_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517447_37 = _3517734_37;
-Obj _3517735_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3517738_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517738_37) {
+Obj v__3517739_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517740_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517453_37 = v__3517740_37;
+Obj v__3517741_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), _3517735_37, closureRef(R[0], 2), _3517447_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3517741_37, closureRef(R[0], 2), v__3517453_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8775,24 +8784,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517277_37 = R[1];
-Obj _3517278_37 = R[2];
-Obj _3517279_37 = R[3];
-Obj _3517725_37 = PRIM_EQ(Nil, _3517279_37);
-if (True == _3517725_37) {
-coraReturn(co, _3517278_37);
+Obj v__3517283_37 = R[1];
+Obj v__3517284_37 = R[2];
+Obj v__3517285_37 = R[3];
+Obj v__3517731_37 = PRIM_EQ(Nil, v__3517285_37);
+if (True == v__3517731_37) {
+coraReturn(co, v__3517284_37);
 return;
 } else {
-Obj _3517726_37 = PRIM_ISCONS(_3517279_37);
-if (True == _3517726_37) {
-Obj _3517727_37 = PRIM_CAR(_3517279_37);
-Obj _3517444_37 = _3517727_37;
-Obj _3517728_37 = PRIM_CDR(_3517279_37);
-Obj _3517445_37 = _3517728_37;
-R[1] = _3517277_37;
-R[2] = _3517445_37;
+Obj v__3517732_37 = PRIM_ISCONS(v__3517285_37);
+if (True == v__3517732_37) {
+Obj v__3517733_37 = PRIM_CAR(v__3517285_37);
+Obj v__3517450_37 = v__3517733_37;
+Obj v__3517734_37 = PRIM_CDR(v__3517285_37);
+Obj v__3517451_37 = v__3517734_37;
+R[1] = v__3517283_37;
+R[2] = v__3517451_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, _3517277_37, _3517278_37, _3517444_37);
+coraCall2(co, v__3517283_37, v__3517284_37, v__3517450_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8803,11 +8812,11 @@ return;
 }
 case 1:
 {
-Obj _3517729_37= co->res;
-Obj _3517277_37 = R[1];
-Obj _3517445_37 = R[2];
+Obj v__3517735_37= co->res;
+Obj v__3517283_37 = R[1];
+Obj v__3517451_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), _3517277_37, _3517729_37, _3517445_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3517283_37, v__3517735_37, v__3517451_37);
 return;
 }
 }
@@ -8817,44 +8826,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517272_37 = R[1];
-Obj _3517273_37 = R[2];
-Obj _3517710_37 = PRIM_EQ(Nil, _3517273_37);
-if (True == _3517710_37) {
+Obj v__3517278_37 = R[1];
+Obj v__3517279_37 = R[2];
+Obj v__3517716_37 = PRIM_EQ(Nil, v__3517279_37);
+if (True == v__3517716_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj _3517440_37 = makeNative(co->gc, 1, clofun0, 0, 2, _3517273_37, _3517272_37);
-Obj _3517714_37 = PRIM_ISCONS(_3517273_37);
-if (True == _3517714_37) {
-Obj _3517715_37 = PRIM_CAR(_3517273_37);
-Obj _3517716_37 = PRIM_ISCONS(_3517715_37);
-if (True == _3517716_37) {
-Obj _3517717_37 = PRIM_CAR(_3517273_37);
-Obj _3517718_37 = PRIM_CAR(_3517717_37);
-Obj _3517442_37 = _3517718_37;
-Obj _3517719_37 = PRIM_CAR(_3517273_37);
-Obj _3517720_37 = PRIM_CDR(_3517719_37);
-Obj _3517443_37 = _3517720_37;
-Obj _3517721_37 = PRIM_CDR(_3517273_37);
-Obj _3517722_37 = PRIM_EQ(_3517272_37, _3517442_37);
-if (True == _3517722_37) {
-Obj _3517723_37 = makeCons(co->gc, _3517442_37, _3517443_37);
-coraReturn(co, _3517723_37);
+Obj v__3517446_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517279_37, v__3517278_37);
+Obj v__3517720_37 = PRIM_ISCONS(v__3517279_37);
+if (True == v__3517720_37) {
+Obj v__3517721_37 = PRIM_CAR(v__3517279_37);
+Obj v__3517722_37 = PRIM_ISCONS(v__3517721_37);
+if (True == v__3517722_37) {
+Obj v__3517723_37 = PRIM_CAR(v__3517279_37);
+Obj v__3517724_37 = PRIM_CAR(v__3517723_37);
+Obj v__3517448_37 = v__3517724_37;
+Obj v__3517725_37 = PRIM_CAR(v__3517279_37);
+Obj v__3517726_37 = PRIM_CDR(v__3517725_37);
+Obj v__3517449_37 = v__3517726_37;
+Obj v__3517727_37 = PRIM_CDR(v__3517279_37);
+Obj v__3517728_37 = PRIM_EQ(v__3517278_37, v__3517448_37);
+if (True == v__3517728_37) {
+Obj v__3517729_37 = makeCons(co->gc, v__3517448_37, v__3517449_37);
+coraReturn(co, v__3517729_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517440_37);
+coraCall0(co, v__3517446_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517440_37);
+coraCall0(co, v__3517446_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, _3517440_37);
+coraCall0(co, v__3517446_37);
 return;
 }
 }
@@ -8866,13 +8875,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj _3517711_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == _3517711_37) {
-Obj _3517712_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj _3517713_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj _3517441_37 = _3517713_37;
+Obj v__3517717_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517717_37) {
+Obj v__3517718_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517719_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517447_37 = v__3517719_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), _3517441_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3517447_37);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index 671ce25..1107507 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -582,7 +582,7 @@
 	       (generate-str to "__symbolTable[")
 	       (generate-num to acc)
 	       (generate-str to "] = bindSymbol(co, intern(\"")
-	       (generate-str to (symbol->string sym))
+	       (generate-str to (escape-str (symbol->string sym)))
 	       (generate-str to "\"));\n")
 	       (+ acc 1)))
 	    0 globals)
diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index b34c0a5..99b96f6 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -19,10 +19,10 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 	Obj exp = R[2];
 	char s[256];
 	symbolStr(exp, s, 256);
-	if (s[0] >= '0' && s[0] <= '9') {
-		fprintf(out, "v");
-	}
-	for (const char *p = s; *p != 0; p++) {
+	// the prefix keeps the name apart from C keywords and from the names
+	// that the generated code uses itself
+	fprintf(out, "v_");
+	for (const unsigned char *p = (const unsigned char*)s; *p != 0; p++) {
 		if ((*p >= 'a' && *p <= 'z') || (*p >= 'A' && *p <= 'Z') ||
 			(*p >= '0' && *p <= '9')) {
 			fprintf(out, "%c", *p);
@@ -62,6 +62,14 @@ builtinEscapeStr(struct Cora *co, int label, Obj *R) {
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, '"');
 			break;
+		case '\\':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, '\\');
+			break;
+		case '\r':
+			dst = strAppend(dst, '\\');
+			dst = strAppend(dst, 'r');
+			break;
 		case '\n':
 			dst = strAppend(dst, '\\');
 			dst = strAppend(dst, 'n');
-- 
2.43.0


From 18dd03d78b2ce691fbbe47bda86956778835ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 19/90] fix: compile quoted lists, and calls of locals named
 like a primitive

---
 init.c       | 3150 +++++++++----------
 lib/toc.c    | 8130 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |    7 +-
 3 files changed, 5671 insertions(+), 5616 deletions(-)

diff --git a/init.c b/init.c
index 7445f76..3c21d06 100644
--- a/init.c
+++ b/init.c
@@ -275,315 +275,315 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513146_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3513149_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3513152_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3513155_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3513158_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3513162_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3513167_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3513171_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3513179_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3513181_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3513186_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3513212_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3513215_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3513218_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3513221_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3513224_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3513228_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3513233_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3513237_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3513245_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3513247_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3513252_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun95, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3513666_37= co->res;
-Obj v__3513672_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v__3513684_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v__3513685_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3513686_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513685_37);
-Obj v__3513687_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513686_37);
-Obj v__3513688_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3513689_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513688_37);
-Obj v__3513690_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513689_37);
-Obj v__3513691_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3513692_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513691_37);
-Obj v__3513693_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513692_37);
-Obj v__3513694_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3513695_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513694_37);
-Obj v__3513696_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513695_37);
-Obj v__3513697_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3513698_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513697_37);
-Obj v__3513699_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513698_37);
-Obj v__3513700_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3513701_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513700_37);
-Obj v__3513702_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513701_37);
-Obj v__3513703_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3513704_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513703_37);
-Obj v__3513705_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513704_37);
-Obj v__3513706_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3513707_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513706_37);
-Obj v__3513708_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513707_37);
-Obj v__3513709_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3513710_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513709_37);
-Obj v__3513711_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513710_37);
-Obj v__3513712_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3513713_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513712_37);
-Obj v__3513714_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513713_37);
-Obj v__3513715_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3513716_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513715_37);
-Obj v__3513717_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513716_37);
-Obj v__3513718_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3513719_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513718_37);
-Obj v__3513720_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513719_37);
-Obj v__3513721_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3513722_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513721_37);
-Obj v__3513723_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513722_37);
-Obj v__3513724_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3513725_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513724_37);
-Obj v__3513726_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513725_37);
-Obj v__3513727_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3513728_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513727_37);
-Obj v__3513729_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513728_37);
-Obj v__3513730_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3513731_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513730_37);
-Obj v__3513732_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513731_37);
-Obj v__3513733_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3513734_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513733_37);
-Obj v__3513735_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513734_37);
-Obj v__3513736_37 = makeCons(co->gc, v__3513735_37, Nil);
-Obj v__3513737_37 = makeCons(co->gc, v__3513732_37, v__3513736_37);
-Obj v__3513738_37 = makeCons(co->gc, v__3513729_37, v__3513737_37);
-Obj v__3513739_37 = makeCons(co->gc, v__3513726_37, v__3513738_37);
-Obj v__3513740_37 = makeCons(co->gc, v__3513723_37, v__3513739_37);
-Obj v__3513741_37 = makeCons(co->gc, v__3513720_37, v__3513740_37);
-Obj v__3513742_37 = makeCons(co->gc, v__3513717_37, v__3513741_37);
-Obj v__3513743_37 = makeCons(co->gc, v__3513714_37, v__3513742_37);
-Obj v__3513744_37 = makeCons(co->gc, v__3513711_37, v__3513743_37);
-Obj v__3513745_37 = makeCons(co->gc, v__3513708_37, v__3513744_37);
-Obj v__3513746_37 = makeCons(co->gc, v__3513705_37, v__3513745_37);
-Obj v__3513747_37 = makeCons(co->gc, v__3513702_37, v__3513746_37);
-Obj v__3513748_37 = makeCons(co->gc, v__3513699_37, v__3513747_37);
-Obj v__3513749_37 = makeCons(co->gc, v__3513696_37, v__3513748_37);
-Obj v__3513750_37 = makeCons(co->gc, v__3513693_37, v__3513749_37);
-Obj v__3513751_37 = makeCons(co->gc, v__3513690_37, v__3513750_37);
-Obj v__3513752_37 = makeCons(co->gc, v__3513687_37, v__3513751_37);
-Obj v__3513753_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513752_37);
-Obj v__3513768_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v__3513772_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v__3513950_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v__3513951_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3513952_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3513951_37);
-Obj v__3513953_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3513952_37);
-Obj v__3513954_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3513953_37);
-Obj v__3513955_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3513954_37);
-Obj v__3513956_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3513955_37);
-Obj v__3513957_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3513956_37);
-Obj v__3513958_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3513957_37);
-Obj v__3513959_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3513958_37);
-Obj v__3513960_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3513959_37);
-Obj v__3513961_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513960_37);
-Obj v__3513962_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3513961_37);
-Obj v__3513963_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3513962_37);
-Obj v__3513964_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3513963_37);
-Obj v__3513965_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3513964_37);
-Obj v__3513966_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3513965_37);
-Obj v__3513967_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3513966_37);
-Obj v__3513968_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3513967_37);
-Obj v__3513969_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3513968_37);
-Obj v__3513970_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3513969_37);
-Obj v__3513971_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3513970_37);
-Obj v__3513972_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3513971_37);
-Obj v__3513973_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3513972_37);
-Obj v__3513974_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3513973_37);
-Obj v__3513975_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3513974_37);
-Obj v__3513976_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3513975_37);
-Obj v__3513977_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3513976_37);
-Obj v__3513978_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3513977_37);
-Obj v__3513979_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3513978_37);
-Obj v__3513980_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3513979_37);
-Obj v__3513981_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3513980_37);
-Obj v__3513982_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3513981_37);
-Obj v__3513983_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3513982_37);
-Obj v__3513984_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3513983_37);
-Obj v__3513985_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3513984_37);
-Obj v__3513986_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3513985_37);
-Obj v__3513987_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3513986_37);
-Obj v__3513988_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3513987_37);
-Obj v__3513989_37 = primSet(co, getBinding(co, packageID, 53).name, v__3513988_37);
-Obj v__3513990_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3513991_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3513992_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3513993_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3513994_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3513995_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3513996_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v__3513997_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v__3513998_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v__3513999_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v__3514000_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3514001_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3514002_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3514003_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3514004_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3514005_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3514006_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3514007_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3514008_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3514009_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3514010_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3514011_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3514012_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3514013_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3514014_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3514015_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3514016_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3514017_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3514018_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3514019_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3514020_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3514021_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v__3514022_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3514023_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v__3514024_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3514025_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3514026_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3514027_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3514028_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3514028_37);
+Obj v__3513732_37= co->res;
+Obj v__3513738_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
+Obj v__3513750_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
+Obj v__3513751_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3513752_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513751_37);
+Obj v__3513753_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513752_37);
+Obj v__3513754_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3513755_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513754_37);
+Obj v__3513756_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513755_37);
+Obj v__3513757_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3513758_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513757_37);
+Obj v__3513759_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513758_37);
+Obj v__3513760_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3513761_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513760_37);
+Obj v__3513762_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513761_37);
+Obj v__3513763_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3513764_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513763_37);
+Obj v__3513765_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513764_37);
+Obj v__3513766_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3513767_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513766_37);
+Obj v__3513768_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513767_37);
+Obj v__3513769_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3513770_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513769_37);
+Obj v__3513771_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513770_37);
+Obj v__3513772_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3513773_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513772_37);
+Obj v__3513774_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513773_37);
+Obj v__3513775_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3513776_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513775_37);
+Obj v__3513777_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513776_37);
+Obj v__3513778_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3513779_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513778_37);
+Obj v__3513780_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513779_37);
+Obj v__3513781_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3513782_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513781_37);
+Obj v__3513783_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513782_37);
+Obj v__3513784_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3513785_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513784_37);
+Obj v__3513786_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513785_37);
+Obj v__3513787_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3513788_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513787_37);
+Obj v__3513789_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513788_37);
+Obj v__3513790_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3513791_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513790_37);
+Obj v__3513792_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513791_37);
+Obj v__3513793_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3513794_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513793_37);
+Obj v__3513795_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513794_37);
+Obj v__3513796_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3513797_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513796_37);
+Obj v__3513798_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513797_37);
+Obj v__3513799_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3513800_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513799_37);
+Obj v__3513801_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513800_37);
+Obj v__3513802_37 = makeCons(co->gc, v__3513801_37, Nil);
+Obj v__3513803_37 = makeCons(co->gc, v__3513798_37, v__3513802_37);
+Obj v__3513804_37 = makeCons(co->gc, v__3513795_37, v__3513803_37);
+Obj v__3513805_37 = makeCons(co->gc, v__3513792_37, v__3513804_37);
+Obj v__3513806_37 = makeCons(co->gc, v__3513789_37, v__3513805_37);
+Obj v__3513807_37 = makeCons(co->gc, v__3513786_37, v__3513806_37);
+Obj v__3513808_37 = makeCons(co->gc, v__3513783_37, v__3513807_37);
+Obj v__3513809_37 = makeCons(co->gc, v__3513780_37, v__3513808_37);
+Obj v__3513810_37 = makeCons(co->gc, v__3513777_37, v__3513809_37);
+Obj v__3513811_37 = makeCons(co->gc, v__3513774_37, v__3513810_37);
+Obj v__3513812_37 = makeCons(co->gc, v__3513771_37, v__3513811_37);
+Obj v__3513813_37 = makeCons(co->gc, v__3513768_37, v__3513812_37);
+Obj v__3513814_37 = makeCons(co->gc, v__3513765_37, v__3513813_37);
+Obj v__3513815_37 = makeCons(co->gc, v__3513762_37, v__3513814_37);
+Obj v__3513816_37 = makeCons(co->gc, v__3513759_37, v__3513815_37);
+Obj v__3513817_37 = makeCons(co->gc, v__3513756_37, v__3513816_37);
+Obj v__3513818_37 = makeCons(co->gc, v__3513753_37, v__3513817_37);
+Obj v__3513819_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513818_37);
+Obj v__3513834_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
+Obj v__3513838_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
+Obj v__3514016_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
+Obj v__3514017_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3514018_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3514017_37);
+Obj v__3514019_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3514018_37);
+Obj v__3514020_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514019_37);
+Obj v__3514021_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3514020_37);
+Obj v__3514022_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3514021_37);
+Obj v__3514023_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3514022_37);
+Obj v__3514024_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3514023_37);
+Obj v__3514025_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3514024_37);
+Obj v__3514026_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3514025_37);
+Obj v__3514027_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514026_37);
+Obj v__3514028_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3514027_37);
+Obj v__3514029_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3514028_37);
+Obj v__3514030_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3514029_37);
+Obj v__3514031_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3514030_37);
+Obj v__3514032_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3514031_37);
+Obj v__3514033_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3514032_37);
+Obj v__3514034_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3514033_37);
+Obj v__3514035_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3514034_37);
+Obj v__3514036_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3514035_37);
+Obj v__3514037_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3514036_37);
+Obj v__3514038_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3514037_37);
+Obj v__3514039_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3514038_37);
+Obj v__3514040_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3514039_37);
+Obj v__3514041_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3514040_37);
+Obj v__3514042_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3514041_37);
+Obj v__3514043_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3514042_37);
+Obj v__3514044_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3514043_37);
+Obj v__3514045_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3514044_37);
+Obj v__3514046_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3514045_37);
+Obj v__3514047_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3514046_37);
+Obj v__3514048_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3514047_37);
+Obj v__3514049_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514048_37);
+Obj v__3514050_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514049_37);
+Obj v__3514051_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514050_37);
+Obj v__3514052_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514051_37);
+Obj v__3514053_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514052_37);
+Obj v__3514054_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514053_37);
+Obj v__3514055_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514054_37);
+Obj v__3514056_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3514057_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3514058_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3514059_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3514060_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3514061_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3514062_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
+Obj v__3514063_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
+Obj v__3514064_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
+Obj v__3514065_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
+Obj v__3514066_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3514067_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3514068_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3514069_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3514070_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3514071_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3514072_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3514073_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3514074_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3514075_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3514076_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3514077_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3514078_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3514079_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3514080_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3514081_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3514082_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3514083_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3514084_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3514085_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3514086_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3514087_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
+Obj v__3514088_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514089_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
+Obj v__3514090_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3514091_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3514092_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3514093_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3514094_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3514094_37);
 return;
 }
 case 2:
 {
-Obj v__3513616_37= co->res;
-Obj v__3513645_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v__3513646_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3513682_37= co->res;
+Obj v__3513711_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
+Obj v__3513712_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun95, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3513599_37= co->res;
-Obj v__3513613_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
+Obj v__3513665_37= co->res;
+Obj v__3513679_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3513577_37= co->res;
-Obj v__3513597_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
+Obj v__3513643_37= co->res;
+Obj v__3513663_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3513546_37= co->res;
-Obj v__3513547_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v__3513548_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v__3513551_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3513575_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3513612_37= co->res;
+Obj v__3513613_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
+Obj v__3513614_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
+Obj v__3513617_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3513641_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
 saveCont(co, clofun95, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3513438_37= co->res;
-Obj v__3513490_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v__3513491_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v__3513496_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v__3513500_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v__3513501_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v__3513509_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v__3513510_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v__3513516_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3513527_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v__3513533_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
+Obj v__3513504_37= co->res;
+Obj v__3513556_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
+Obj v__3513557_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3513562_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
+Obj v__3513566_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
+Obj v__3513567_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
+Obj v__3513575_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
+Obj v__3513576_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
+Obj v__3513582_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3513593_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
+Obj v__3513599_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3513333_37= co->res;
-Obj v__3513355_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3513388_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3513401_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3513423_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3513437_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3513399_37= co->res;
+Obj v__3513421_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3513454_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3513467_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3513489_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3513503_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
 saveCont(co, clofun95, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3513318_37= co->res;
-Obj v__3513321_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3513331_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3513384_37= co->res;
+Obj v__3513387_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3513397_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3513304_37= co->res;
-Obj v__3513316_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3513370_37= co->res;
+Obj v__3513382_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3513290_37= co->res;
-Obj v__3513302_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3513356_37= co->res;
+Obj v__3513368_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun95, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3513276_37= co->res;
+Obj v__3513342_37= co->res;
 saveCont(co, clofun95, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3513254_37= co->res;
-Obj v__3513259_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3513262_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3513274_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3513320_37= co->res;
+Obj v__3513325_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3513328_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3513340_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun95, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3513244_37= co->res;
+Obj v__3513310_37= co->res;
 saveCont(co, clofun95, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3513242_37= co->res;
+Obj v__3513308_37= co->res;
 saveCont(co, clofun95, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3513187_37= co->res;
-Obj v__3513188_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513187_37);
-Obj v__3513194_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3513195_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3513196_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v__3513197_37 = primGenSym(co);
-Obj v__3513198_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513197_37);
-Obj v__3513202_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3513211_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3513212_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3513229_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3513230_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v__3513241_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3513253_37= co->res;
+Obj v__3513254_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513253_37);
+Obj v__3513260_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3513261_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3513262_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
+Obj v__3513263_37 = primGenSym(co);
+Obj v__3513264_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513263_37);
+Obj v__3513268_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3513277_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3513278_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3513295_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3513296_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
+Obj v__3513307_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun95, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
 return;
@@ -595,67 +595,67 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513029_37 = R[1];
-Obj v__3513030_37 = R[2];
-Obj v__3513031_37 = R[3];
-Obj v__3513032_37 = R[4];
-Obj v__3513118_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513029_37, v__3513030_37, v__3513031_37, v__3513032_37);
-R[1] = v__3513032_37;
-R[2] = v__3513118_37;
+Obj v__3513095_37 = R[1];
+Obj v__3513096_37 = R[2];
+Obj v__3513097_37 = R[3];
+Obj v__3513098_37 = R[4];
+Obj v__3513184_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513095_37, v__3513096_37, v__3513097_37, v__3513098_37);
+R[1] = v__3513098_37;
+R[2] = v__3513184_37;
 saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513032_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513098_37);
 return;
 }
 case 1:
 {
-Obj v__3513949_37= co->res;
-Obj v__3513118_37 = R[1];
-if (True == v__3513949_37) {
+Obj v__3514015_37= co->res;
+Obj v__3513184_37 = R[1];
+if (True == v__3514015_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513118_37, True);
+coraCall1(co, v__3513184_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513118_37, False);
+coraCall1(co, v__3513184_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513948_37= co->res;
-Obj v__3513032_37 = R[1];
-Obj v__3513118_37 = R[2];
-if (True == v__3513948_37) {
+Obj v__3514014_37= co->res;
+Obj v__3513098_37 = R[1];
+Obj v__3513184_37 = R[2];
+if (True == v__3514014_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513118_37, True);
+coraCall1(co, v__3513184_37, True);
 return;
 } else {
-R[1] = v__3513118_37;
+R[1] = v__3513184_37;
 saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513032_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513098_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3513946_37= co->res;
-Obj v__3513032_37 = R[1];
-Obj v__3513118_37 = R[2];
-if (True == v__3513946_37) {
+Obj v__3514012_37= co->res;
+Obj v__3513098_37 = R[1];
+Obj v__3513184_37 = R[2];
+if (True == v__3514012_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513118_37, True);
+coraCall1(co, v__3513184_37, True);
 return;
 } else {
-Obj v__3513947_37 = primIsString(v__3513032_37);
-if (True == v__3513947_37) {
+Obj v__3514013_37 = primIsString(v__3513098_37);
+if (True == v__3514013_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513118_37, True);
+coraCall1(co, v__3513184_37, True);
 return;
 } else {
-R[1] = v__3513032_37;
-R[2] = v__3513118_37;
+R[1] = v__3513098_37;
+R[2] = v__3513184_37;
 saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513032_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513098_37);
 return;
 }
 }
@@ -667,49 +667,49 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513117_37 = R[1];
-if (True == v__3513117_37) {
+Obj v__3513183_37 = R[1];
+if (True == v__3513183_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3513119_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513934_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3513934_37) {
-Obj v__3513935_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3513936_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3513935_37);
-if (True == v__3513936_37) {
-Obj v__3513937_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3513938_37 = PRIM_ISCONS(v__3513937_37);
-if (True == v__3513938_37) {
-Obj v__3513939_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3513940_37 = PRIM_CAR(v__3513939_37);
-Obj v__3513144_37 = v__3513940_37;
-Obj v__3513941_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3513942_37 = PRIM_CDR(v__3513941_37);
-Obj v__3513943_37 = PRIM_EQ(Nil, v__3513942_37);
-if (True == v__3513943_37) {
-Obj v__3513944_37 = makeCons(co->gc, v__3513144_37, Nil);
-Obj v__3513945_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513944_37);
-coraReturn(co, v__3513945_37);
+Obj v__3513185_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3514000_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3514000_37) {
+Obj v__3514001_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3514002_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3514001_37);
+if (True == v__3514002_37) {
+Obj v__3514003_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514004_37 = PRIM_ISCONS(v__3514003_37);
+if (True == v__3514004_37) {
+Obj v__3514005_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514006_37 = PRIM_CAR(v__3514005_37);
+Obj v__3513210_37 = v__3514006_37;
+Obj v__3514007_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514008_37 = PRIM_CDR(v__3514007_37);
+Obj v__3514009_37 = PRIM_EQ(Nil, v__3514008_37);
+if (True == v__3514009_37) {
+Obj v__3514010_37 = makeCons(co->gc, v__3513210_37, Nil);
+Obj v__3514011_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514010_37);
+coraReturn(co, v__3514011_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513119_37);
+coraCall0(co, v__3513185_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513119_37);
+coraCall0(co, v__3513185_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513119_37);
+coraCall0(co, v__3513185_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513119_37);
+coraCall0(co, v__3513185_37);
 return;
 }
 }
@@ -721,73 +721,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513773_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3513773_37) {
+Obj v__3513839_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3513839_37) {
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513120_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513912_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513912_37) {
-Obj v__3513913_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513914_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3513913_37);
-if (True == v__3513914_37) {
-Obj v__3513915_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513916_37 = PRIM_ISCONS(v__3513915_37);
-if (True == v__3513916_37) {
-Obj v__3513917_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513918_37 = PRIM_CAR(v__3513917_37);
-Obj v__3513142_37 = v__3513918_37;
-Obj v__3513919_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513920_37 = PRIM_CDR(v__3513919_37);
-Obj v__3513921_37 = PRIM_ISCONS(v__3513920_37);
-if (True == v__3513921_37) {
-Obj v__3513922_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513923_37 = PRIM_CDR(v__3513922_37);
-Obj v__3513924_37 = PRIM_CAR(v__3513923_37);
-Obj v__3513143_37 = v__3513924_37;
-Obj v__3513925_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513926_37 = PRIM_CDR(v__3513925_37);
-Obj v__3513927_37 = PRIM_CDR(v__3513926_37);
-Obj v__3513928_37 = PRIM_EQ(Nil, v__3513927_37);
-if (True == v__3513928_37) {
-R[1] = v__3513143_37;
-R[2] = v__3513142_37;
+Obj v__3513186_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513978_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513978_37) {
+Obj v__3513979_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513980_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3513979_37);
+if (True == v__3513980_37) {
+Obj v__3513981_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513982_37 = PRIM_ISCONS(v__3513981_37);
+if (True == v__3513982_37) {
+Obj v__3513983_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513984_37 = PRIM_CAR(v__3513983_37);
+Obj v__3513208_37 = v__3513984_37;
+Obj v__3513985_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513986_37 = PRIM_CDR(v__3513985_37);
+Obj v__3513987_37 = PRIM_ISCONS(v__3513986_37);
+if (True == v__3513987_37) {
+Obj v__3513988_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513989_37 = PRIM_CDR(v__3513988_37);
+Obj v__3513990_37 = PRIM_CAR(v__3513989_37);
+Obj v__3513209_37 = v__3513990_37;
+Obj v__3513991_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513992_37 = PRIM_CDR(v__3513991_37);
+Obj v__3513993_37 = PRIM_CDR(v__3513992_37);
+Obj v__3513994_37 = PRIM_EQ(Nil, v__3513993_37);
+if (True == v__3513994_37) {
+R[1] = v__3513209_37;
+R[2] = v__3513208_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513142_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513208_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513186_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513186_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513186_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513186_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513120_37);
+coraCall0(co, v__3513186_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513775_37= co->res;
-if (True == v__3513775_37) {
+Obj v__3513841_37= co->res;
+if (True == v__3513841_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,8 +798,8 @@ return;
 }
 case 2:
 {
-Obj v__3513774_37= co->res;
-if (True == v__3513774_37) {
+Obj v__3513840_37= co->res;
+if (True == v__3513840_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -810,22 +810,22 @@ return;
 }
 case 3:
 {
-Obj v__3513930_37= co->res;
-Obj v__3513142_37 = R[1];
-Obj v__3513931_37 = makeCons(co->gc, v__3513930_37, Nil);
-Obj v__3513932_37 = makeCons(co->gc, v__3513142_37, v__3513931_37);
-Obj v__3513933_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513932_37);
-coraReturn(co, v__3513933_37);
+Obj v__3513996_37= co->res;
+Obj v__3513208_37 = R[1];
+Obj v__3513997_37 = makeCons(co->gc, v__3513996_37, Nil);
+Obj v__3513998_37 = makeCons(co->gc, v__3513208_37, v__3513997_37);
+Obj v__3513999_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513998_37);
+coraReturn(co, v__3513999_37);
 return;
 }
 case 4:
 {
-Obj v__3513929_37= co->res;
-Obj v__3513143_37 = R[1];
-Obj v__3513142_37 = R[2];
-R[1] = v__3513142_37;
+Obj v__3513995_37= co->res;
+Obj v__3513209_37 = R[1];
+Obj v__3513208_37 = R[2];
+R[1] = v__3513208_37;
 saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513929_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513143_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513995_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513209_37);
 return;
 }
 }
@@ -835,132 +835,132 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513121_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513868_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513868_37) {
-Obj v__3513869_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513870_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513869_37);
-if (True == v__3513870_37) {
-Obj v__3513871_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513872_37 = PRIM_ISCONS(v__3513871_37);
-if (True == v__3513872_37) {
-Obj v__3513873_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513874_37 = PRIM_CAR(v__3513873_37);
-Obj v__3513875_37 = PRIM_ISCONS(v__3513874_37);
-if (True == v__3513875_37) {
-Obj v__3513876_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513877_37 = PRIM_CAR(v__3513876_37);
-Obj v__3513878_37 = PRIM_CAR(v__3513877_37);
-Obj v__3513879_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513878_37);
-if (True == v__3513879_37) {
-Obj v__3513880_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513881_37 = PRIM_CAR(v__3513880_37);
-Obj v__3513882_37 = PRIM_CDR(v__3513881_37);
-Obj v__3513883_37 = PRIM_ISCONS(v__3513882_37);
-if (True == v__3513883_37) {
-Obj v__3513884_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513885_37 = PRIM_CAR(v__3513884_37);
-Obj v__3513886_37 = PRIM_CDR(v__3513885_37);
-Obj v__3513887_37 = PRIM_CAR(v__3513886_37);
-Obj v__3513140_37 = v__3513887_37;
-Obj v__3513888_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513889_37 = PRIM_CAR(v__3513888_37);
-Obj v__3513890_37 = PRIM_CDR(v__3513889_37);
-Obj v__3513891_37 = PRIM_CDR(v__3513890_37);
-Obj v__3513892_37 = PRIM_EQ(Nil, v__3513891_37);
-if (True == v__3513892_37) {
-Obj v__3513893_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513894_37 = PRIM_CDR(v__3513893_37);
-Obj v__3513895_37 = PRIM_ISCONS(v__3513894_37);
-if (True == v__3513895_37) {
-Obj v__3513896_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513897_37 = PRIM_CDR(v__3513896_37);
-Obj v__3513898_37 = PRIM_CAR(v__3513897_37);
-Obj v__3513141_37 = v__3513898_37;
-Obj v__3513899_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513900_37 = PRIM_CDR(v__3513899_37);
-Obj v__3513901_37 = PRIM_CDR(v__3513900_37);
-Obj v__3513902_37 = PRIM_EQ(Nil, v__3513901_37);
-if (True == v__3513902_37) {
-Obj v__3513903_37 = primIsString(v__3513140_37);
-if (True == v__3513903_37) {
-Obj v__3513904_37 = makeCons(co->gc, v__3513140_37, Nil);
-Obj v__3513905_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513904_37);
-R[1] = v__3513140_37;
-R[2] = v__3513141_37;
+Obj v__3513187_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513934_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513934_37) {
+Obj v__3513935_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513936_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513935_37);
+if (True == v__3513936_37) {
+Obj v__3513937_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513938_37 = PRIM_ISCONS(v__3513937_37);
+if (True == v__3513938_37) {
+Obj v__3513939_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513940_37 = PRIM_CAR(v__3513939_37);
+Obj v__3513941_37 = PRIM_ISCONS(v__3513940_37);
+if (True == v__3513941_37) {
+Obj v__3513942_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513943_37 = PRIM_CAR(v__3513942_37);
+Obj v__3513944_37 = PRIM_CAR(v__3513943_37);
+Obj v__3513945_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513944_37);
+if (True == v__3513945_37) {
+Obj v__3513946_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513947_37 = PRIM_CAR(v__3513946_37);
+Obj v__3513948_37 = PRIM_CDR(v__3513947_37);
+Obj v__3513949_37 = PRIM_ISCONS(v__3513948_37);
+if (True == v__3513949_37) {
+Obj v__3513950_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513951_37 = PRIM_CAR(v__3513950_37);
+Obj v__3513952_37 = PRIM_CDR(v__3513951_37);
+Obj v__3513953_37 = PRIM_CAR(v__3513952_37);
+Obj v__3513206_37 = v__3513953_37;
+Obj v__3513954_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513955_37 = PRIM_CAR(v__3513954_37);
+Obj v__3513956_37 = PRIM_CDR(v__3513955_37);
+Obj v__3513957_37 = PRIM_CDR(v__3513956_37);
+Obj v__3513958_37 = PRIM_EQ(Nil, v__3513957_37);
+if (True == v__3513958_37) {
+Obj v__3513959_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
+Obj v__3513961_37 = PRIM_ISCONS(v__3513960_37);
+if (True == v__3513961_37) {
+Obj v__3513962_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513963_37 = PRIM_CDR(v__3513962_37);
+Obj v__3513964_37 = PRIM_CAR(v__3513963_37);
+Obj v__3513207_37 = v__3513964_37;
+Obj v__3513965_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513966_37 = PRIM_CDR(v__3513965_37);
+Obj v__3513967_37 = PRIM_CDR(v__3513966_37);
+Obj v__3513968_37 = PRIM_EQ(Nil, v__3513967_37);
+if (True == v__3513968_37) {
+Obj v__3513969_37 = primIsString(v__3513206_37);
+if (True == v__3513969_37) {
+Obj v__3513970_37 = makeCons(co->gc, v__3513206_37, Nil);
+Obj v__3513971_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513970_37);
+R[1] = v__3513206_37;
+R[2] = v__3513207_37;
 saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513905_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513971_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513121_37);
+coraCall0(co, v__3513187_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513908_37= co->res;
-Obj v__3513906_37 = R[1];
-Obj v__3513909_37 = makeCons(co->gc, v__3513908_37, Nil);
-Obj v__3513910_37 = makeCons(co->gc, v__3513906_37, v__3513909_37);
-Obj v__3513911_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513910_37);
-coraReturn(co, v__3513911_37);
+Obj v__3513974_37= co->res;
+Obj v__3513972_37 = R[1];
+Obj v__3513975_37 = makeCons(co->gc, v__3513974_37, Nil);
+Obj v__3513976_37 = makeCons(co->gc, v__3513972_37, v__3513975_37);
+Obj v__3513977_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513976_37);
+coraReturn(co, v__3513977_37);
 return;
 }
 case 2:
 {
-Obj v__3513906_37= co->res;
-Obj v__3513140_37 = R[1];
-Obj v__3513141_37 = R[2];
-Obj v__3513907_37 = makeCons(co->gc, v__3513140_37, closureRef(R[0], 3));
-R[1] = v__3513906_37;
+Obj v__3513972_37= co->res;
+Obj v__3513206_37 = R[1];
+Obj v__3513207_37 = R[2];
+Obj v__3513973_37 = makeCons(co->gc, v__3513206_37, closureRef(R[0], 3));
+R[1] = v__3513972_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513907_37, v__3513141_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513973_37, v__3513207_37);
 return;
 }
 }
@@ -970,34 +970,34 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513122_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513860_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513860_37) {
-Obj v__3513861_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513135_37 = v__3513861_37;
-Obj v__3513862_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513136_37 = v__3513862_37;
-Obj v__3513139_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513135_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513136_37, v__3513122_37);
-Obj v__3513866_37 = PRIM_EQ(v__3513135_37, getBinding(co, packageID, 126).name);
-if (True == v__3513866_37) {
+Obj v__3513188_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513926_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513926_37) {
+Obj v__3513927_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513201_37 = v__3513927_37;
+Obj v__3513928_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513202_37 = v__3513928_37;
+Obj v__3513205_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513201_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513202_37, v__3513188_37);
+Obj v__3513932_37 = PRIM_EQ(v__3513201_37, getBinding(co, packageID, 126).name);
+if (True == v__3513932_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513139_37, True);
+coraCall1(co, v__3513205_37, True);
 return;
 } else {
-Obj v__3513867_37 = PRIM_EQ(v__3513135_37, getBinding(co, packageID, 90).name);
-if (True == v__3513867_37) {
+Obj v__3513933_37 = PRIM_EQ(v__3513201_37, getBinding(co, packageID, 90).name);
+if (True == v__3513933_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513139_37, True);
+coraCall1(co, v__3513205_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513139_37, False);
+coraCall1(co, v__3513205_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513122_37);
+coraCall0(co, v__3513188_37);
 return;
 }
 }
@@ -1008,8 +1008,8 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513138_37 = R[1];
-if (True == v__3513138_37) {
+Obj v__3513204_37 = R[1];
+if (True == v__3513204_37) {
 saveCont(co, clofun89, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1021,16 +1021,16 @@ return;
 }
 case 1:
 {
-Obj v__3513864_37= co->res;
-Obj v__3513865_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513864_37);
-coraReturn(co, v__3513865_37);
+Obj v__3513930_37= co->res;
+Obj v__3513931_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513930_37);
+coraReturn(co, v__3513931_37);
 return;
 }
 case 2:
 {
-Obj v__3513863_37= co->res;
+Obj v__3513929_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513863_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513929_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1040,100 +1040,100 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513123_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513827_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513827_37) {
-Obj v__3513828_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513829_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513828_37);
-if (True == v__3513829_37) {
-Obj v__3513830_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513831_37 = PRIM_ISCONS(v__3513830_37);
-if (True == v__3513831_37) {
-Obj v__3513832_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513833_37 = PRIM_CAR(v__3513832_37);
-Obj v__3513132_37 = v__3513833_37;
-Obj v__3513834_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513835_37 = PRIM_CDR(v__3513834_37);
-Obj v__3513836_37 = PRIM_ISCONS(v__3513835_37);
-if (True == v__3513836_37) {
-Obj v__3513837_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513838_37 = PRIM_CDR(v__3513837_37);
-Obj v__3513839_37 = PRIM_CAR(v__3513838_37);
-Obj v__3513133_37 = v__3513839_37;
-Obj v__3513840_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513841_37 = PRIM_CDR(v__3513840_37);
-Obj v__3513842_37 = PRIM_CDR(v__3513841_37);
-Obj v__3513843_37 = PRIM_ISCONS(v__3513842_37);
-if (True == v__3513843_37) {
-Obj v__3513844_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513845_37 = PRIM_CDR(v__3513844_37);
-Obj v__3513846_37 = PRIM_CDR(v__3513845_37);
-Obj v__3513847_37 = PRIM_CAR(v__3513846_37);
-Obj v__3513134_37 = v__3513847_37;
-Obj v__3513848_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513849_37 = PRIM_CDR(v__3513848_37);
-Obj v__3513850_37 = PRIM_CDR(v__3513849_37);
-Obj v__3513851_37 = PRIM_CDR(v__3513850_37);
-Obj v__3513852_37 = PRIM_EQ(Nil, v__3513851_37);
-if (True == v__3513852_37) {
-R[1] = v__3513134_37;
-R[2] = v__3513132_37;
+Obj v__3513189_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513893_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513893_37) {
+Obj v__3513894_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513895_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513894_37);
+if (True == v__3513895_37) {
+Obj v__3513896_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513897_37 = PRIM_ISCONS(v__3513896_37);
+if (True == v__3513897_37) {
+Obj v__3513898_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513899_37 = PRIM_CAR(v__3513898_37);
+Obj v__3513198_37 = v__3513899_37;
+Obj v__3513900_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513901_37 = PRIM_CDR(v__3513900_37);
+Obj v__3513902_37 = PRIM_ISCONS(v__3513901_37);
+if (True == v__3513902_37) {
+Obj v__3513903_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513904_37 = PRIM_CDR(v__3513903_37);
+Obj v__3513905_37 = PRIM_CAR(v__3513904_37);
+Obj v__3513199_37 = v__3513905_37;
+Obj v__3513906_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513907_37 = PRIM_CDR(v__3513906_37);
+Obj v__3513908_37 = PRIM_CDR(v__3513907_37);
+Obj v__3513909_37 = PRIM_ISCONS(v__3513908_37);
+if (True == v__3513909_37) {
+Obj v__3513910_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513911_37 = PRIM_CDR(v__3513910_37);
+Obj v__3513912_37 = PRIM_CDR(v__3513911_37);
+Obj v__3513913_37 = PRIM_CAR(v__3513912_37);
+Obj v__3513200_37 = v__3513913_37;
+Obj v__3513914_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513915_37 = PRIM_CDR(v__3513914_37);
+Obj v__3513916_37 = PRIM_CDR(v__3513915_37);
+Obj v__3513917_37 = PRIM_CDR(v__3513916_37);
+Obj v__3513918_37 = PRIM_EQ(Nil, v__3513917_37);
+if (True == v__3513918_37) {
+R[1] = v__3513200_37;
+R[2] = v__3513198_37;
 saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513133_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513199_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513123_37);
+coraCall0(co, v__3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513123_37);
+coraCall0(co, v__3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513123_37);
+coraCall0(co, v__3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513123_37);
+coraCall0(co, v__3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513123_37);
+coraCall0(co, v__3513189_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513123_37);
+coraCall0(co, v__3513189_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513855_37= co->res;
-Obj v__3513853_37 = R[1];
-Obj v__3513132_37 = R[2];
-Obj v__3513856_37 = makeCons(co->gc, v__3513855_37, Nil);
-Obj v__3513857_37 = makeCons(co->gc, v__3513853_37, v__3513856_37);
-Obj v__3513858_37 = makeCons(co->gc, v__3513132_37, v__3513857_37);
-Obj v__3513859_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513858_37);
-coraReturn(co, v__3513859_37);
+Obj v__3513921_37= co->res;
+Obj v__3513919_37 = R[1];
+Obj v__3513198_37 = R[2];
+Obj v__3513922_37 = makeCons(co->gc, v__3513921_37, Nil);
+Obj v__3513923_37 = makeCons(co->gc, v__3513919_37, v__3513922_37);
+Obj v__3513924_37 = makeCons(co->gc, v__3513198_37, v__3513923_37);
+Obj v__3513925_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513924_37);
+coraReturn(co, v__3513925_37);
 return;
 }
 case 2:
 {
-Obj v__3513853_37= co->res;
-Obj v__3513134_37 = R[1];
-Obj v__3513132_37 = R[2];
-Obj v__3513854_37 = makeCons(co->gc, v__3513132_37, closureRef(R[0], 1));
-R[1] = v__3513853_37;
-R[2] = v__3513132_37;
+Obj v__3513919_37= co->res;
+Obj v__3513200_37 = R[1];
+Obj v__3513198_37 = R[2];
+Obj v__3513920_37 = makeCons(co->gc, v__3513198_37, closureRef(R[0], 1));
+R[1] = v__3513919_37;
+R[2] = v__3513198_37;
 saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513854_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513134_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513920_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513200_37);
 return;
 }
 }
@@ -1143,73 +1143,73 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513124_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513801_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3513801_37) {
-Obj v__3513802_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3513803_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513802_37);
-if (True == v__3513803_37) {
-Obj v__3513804_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513805_37 = PRIM_ISCONS(v__3513804_37);
-if (True == v__3513805_37) {
-Obj v__3513806_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513807_37 = PRIM_CAR(v__3513806_37);
-Obj v__3513129_37 = v__3513807_37;
-Obj v__3513808_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513809_37 = PRIM_CDR(v__3513808_37);
-Obj v__3513810_37 = PRIM_ISCONS(v__3513809_37);
-if (True == v__3513810_37) {
-Obj v__3513811_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513812_37 = PRIM_CDR(v__3513811_37);
-Obj v__3513813_37 = PRIM_CAR(v__3513812_37);
-Obj v__3513130_37 = v__3513813_37;
-Obj v__3513814_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513815_37 = PRIM_CDR(v__3513814_37);
-Obj v__3513816_37 = PRIM_CDR(v__3513815_37);
-Obj v__3513817_37 = PRIM_ISCONS(v__3513816_37);
-if (True == v__3513817_37) {
-Obj v__3513818_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513819_37 = PRIM_CDR(v__3513818_37);
-Obj v__3513820_37 = PRIM_CDR(v__3513819_37);
-Obj v__3513821_37 = PRIM_CAR(v__3513820_37);
-Obj v__3513131_37 = v__3513821_37;
-Obj v__3513822_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513823_37 = PRIM_CDR(v__3513822_37);
-Obj v__3513824_37 = PRIM_CDR(v__3513823_37);
-Obj v__3513825_37 = PRIM_CDR(v__3513824_37);
-Obj v__3513826_37 = PRIM_EQ(Nil, v__3513825_37);
-if (True == v__3513826_37) {
+Obj v__3513190_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513867_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3513867_37) {
+Obj v__3513868_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3513869_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513868_37);
+if (True == v__3513869_37) {
+Obj v__3513870_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513871_37 = PRIM_ISCONS(v__3513870_37);
+if (True == v__3513871_37) {
+Obj v__3513872_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513873_37 = PRIM_CAR(v__3513872_37);
+Obj v__3513195_37 = v__3513873_37;
+Obj v__3513874_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513875_37 = PRIM_CDR(v__3513874_37);
+Obj v__3513876_37 = PRIM_ISCONS(v__3513875_37);
+if (True == v__3513876_37) {
+Obj v__3513877_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513878_37 = PRIM_CDR(v__3513877_37);
+Obj v__3513879_37 = PRIM_CAR(v__3513878_37);
+Obj v__3513196_37 = v__3513879_37;
+Obj v__3513880_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513881_37 = PRIM_CDR(v__3513880_37);
+Obj v__3513882_37 = PRIM_CDR(v__3513881_37);
+Obj v__3513883_37 = PRIM_ISCONS(v__3513882_37);
+if (True == v__3513883_37) {
+Obj v__3513884_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513885_37 = PRIM_CDR(v__3513884_37);
+Obj v__3513886_37 = PRIM_CDR(v__3513885_37);
+Obj v__3513887_37 = PRIM_CAR(v__3513886_37);
+Obj v__3513197_37 = v__3513887_37;
+Obj v__3513888_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513889_37 = PRIM_CDR(v__3513888_37);
+Obj v__3513890_37 = PRIM_CDR(v__3513889_37);
+Obj v__3513891_37 = PRIM_CDR(v__3513890_37);
+Obj v__3513892_37 = PRIM_EQ(Nil, v__3513891_37);
+if (True == v__3513892_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513129_37, v__3513130_37, v__3513131_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513195_37, v__3513196_37, v__3513197_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513124_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513124_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513124_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513124_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513124_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513124_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 }
@@ -1220,81 +1220,81 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513125_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3513777_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513777_37) {
-Obj v__3513778_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513779_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513778_37);
-if (True == v__3513779_37) {
-Obj v__3513780_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513781_37 = PRIM_ISCONS(v__3513780_37);
-if (True == v__3513781_37) {
-Obj v__3513782_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513783_37 = PRIM_CAR(v__3513782_37);
-Obj v__3513126_37 = v__3513783_37;
-Obj v__3513784_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513785_37 = PRIM_CDR(v__3513784_37);
-Obj v__3513786_37 = PRIM_ISCONS(v__3513785_37);
-if (True == v__3513786_37) {
-Obj v__3513787_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513788_37 = PRIM_CDR(v__3513787_37);
-Obj v__3513789_37 = PRIM_CAR(v__3513788_37);
-Obj v__3513127_37 = v__3513789_37;
-Obj v__3513790_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513791_37 = PRIM_CDR(v__3513790_37);
-Obj v__3513792_37 = PRIM_CDR(v__3513791_37);
-Obj v__3513793_37 = PRIM_EQ(Nil, v__3513792_37);
-if (True == v__3513793_37) {
-R[1] = v__3513127_37;
+Obj v__3513191_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3513843_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513843_37) {
+Obj v__3513844_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513845_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513844_37);
+if (True == v__3513845_37) {
+Obj v__3513846_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513847_37 = PRIM_ISCONS(v__3513846_37);
+if (True == v__3513847_37) {
+Obj v__3513848_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513849_37 = PRIM_CAR(v__3513848_37);
+Obj v__3513192_37 = v__3513849_37;
+Obj v__3513850_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513851_37 = PRIM_CDR(v__3513850_37);
+Obj v__3513852_37 = PRIM_ISCONS(v__3513851_37);
+if (True == v__3513852_37) {
+Obj v__3513853_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513854_37 = PRIM_CDR(v__3513853_37);
+Obj v__3513855_37 = PRIM_CAR(v__3513854_37);
+Obj v__3513193_37 = v__3513855_37;
+Obj v__3513856_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513857_37 = PRIM_CDR(v__3513856_37);
+Obj v__3513858_37 = PRIM_CDR(v__3513857_37);
+Obj v__3513859_37 = PRIM_EQ(Nil, v__3513858_37);
+if (True == v__3513859_37) {
+R[1] = v__3513193_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513126_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513192_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513125_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513125_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513125_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513125_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513125_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513797_37= co->res;
-Obj v__3513796_37 = R[1];
-Obj v__3513798_37 = makeCons(co->gc, v__3513797_37, Nil);
-Obj v__3513799_37 = makeCons(co->gc, v__3513796_37, v__3513798_37);
-Obj v__3513800_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513799_37);
-coraReturn(co, v__3513800_37);
+Obj v__3513863_37= co->res;
+Obj v__3513862_37 = R[1];
+Obj v__3513864_37 = makeCons(co->gc, v__3513863_37, Nil);
+Obj v__3513865_37 = makeCons(co->gc, v__3513862_37, v__3513864_37);
+Obj v__3513866_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513865_37);
+coraReturn(co, v__3513866_37);
 return;
 }
 case 2:
 {
-Obj v__3513794_37= co->res;
-Obj v__3513127_37 = R[1];
-Obj v__3513128_37 = v__3513794_37;
-Obj v__3513795_37 = makeCons(co->gc, v__3513128_37, Nil);
-Obj v__3513796_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513795_37);
-R[1] = v__3513796_37;
+Obj v__3513860_37= co->res;
+Obj v__3513193_37 = R[1];
+Obj v__3513194_37 = v__3513860_37;
+Obj v__3513861_37 = makeCons(co->gc, v__3513194_37, Nil);
+Obj v__3513862_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513861_37);
+R[1] = v__3513862_37;
 saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513127_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513193_37);
 return;
 }
 }
@@ -1310,9 +1310,9 @@ return;
 }
 case 1:
 {
-Obj v__3513776_37= co->res;
+Obj v__3513842_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513776_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513842_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,16 +1329,16 @@ return;
 }
 case 1:
 {
-Obj v__3513770_37= co->res;
-Obj v__3513771_37 = primNot(v__3513770_37);
-coraReturn(co, v__3513771_37);
+Obj v__3513836_37= co->res;
+Obj v__3513837_37 = primNot(v__3513836_37);
+coraReturn(co, v__3513837_37);
 return;
 }
 case 2:
 {
-Obj v__3513769_37= co->res;
+Obj v__3513835_37= co->res;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513769_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513835_37);
 return;
 }
 }
@@ -1348,44 +1348,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513024_37 = R[1];
-Obj v__3513025_37 = R[2];
-Obj v__3513754_37 = PRIM_EQ(Nil, v__3513025_37);
-if (True == v__3513754_37) {
+Obj v__3513090_37 = R[1];
+Obj v__3513091_37 = R[2];
+Obj v__3513820_37 = PRIM_EQ(Nil, v__3513091_37);
+if (True == v__3513820_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513112_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513025_37, v__3513024_37);
-Obj v__3513758_37 = PRIM_ISCONS(v__3513025_37);
-if (True == v__3513758_37) {
-Obj v__3513759_37 = PRIM_CAR(v__3513025_37);
-Obj v__3513760_37 = PRIM_ISCONS(v__3513759_37);
-if (True == v__3513760_37) {
-Obj v__3513761_37 = PRIM_CAR(v__3513025_37);
-Obj v__3513762_37 = PRIM_CAR(v__3513761_37);
-Obj v__3513114_37 = v__3513762_37;
-Obj v__3513763_37 = PRIM_CAR(v__3513025_37);
-Obj v__3513764_37 = PRIM_CDR(v__3513763_37);
-Obj v__3513115_37 = v__3513764_37;
-Obj v__3513765_37 = PRIM_CDR(v__3513025_37);
-Obj v__3513766_37 = PRIM_EQ(v__3513024_37, v__3513114_37);
-if (True == v__3513766_37) {
-Obj v__3513767_37 = makeCons(co->gc, v__3513114_37, v__3513115_37);
-coraReturn(co, v__3513767_37);
+Obj v__3513178_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513091_37, v__3513090_37);
+Obj v__3513824_37 = PRIM_ISCONS(v__3513091_37);
+if (True == v__3513824_37) {
+Obj v__3513825_37 = PRIM_CAR(v__3513091_37);
+Obj v__3513826_37 = PRIM_ISCONS(v__3513825_37);
+if (True == v__3513826_37) {
+Obj v__3513827_37 = PRIM_CAR(v__3513091_37);
+Obj v__3513828_37 = PRIM_CAR(v__3513827_37);
+Obj v__3513180_37 = v__3513828_37;
+Obj v__3513829_37 = PRIM_CAR(v__3513091_37);
+Obj v__3513830_37 = PRIM_CDR(v__3513829_37);
+Obj v__3513181_37 = v__3513830_37;
+Obj v__3513831_37 = PRIM_CDR(v__3513091_37);
+Obj v__3513832_37 = PRIM_EQ(v__3513090_37, v__3513180_37);
+if (True == v__3513832_37) {
+Obj v__3513833_37 = makeCons(co->gc, v__3513180_37, v__3513181_37);
+coraReturn(co, v__3513833_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513112_37);
+coraCall0(co, v__3513178_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513112_37);
+coraCall0(co, v__3513178_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513112_37);
+coraCall0(co, v__3513178_37);
 return;
 }
 }
@@ -1397,13 +1397,13 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513755_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513755_37) {
-Obj v__3513756_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513757_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513113_37 = v__3513757_37;
+Obj v__3513821_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513821_37) {
+Obj v__3513822_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513823_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513179_37 = v__3513823_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513113_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513179_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1418,27 +1418,27 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513019_37 = R[1];
-Obj v__3513020_37 = R[2];
-Obj v__3513021_37 = R[3];
-Obj v__3513673_37 = PRIM_EQ(Nil, v__3513021_37);
-if (True == v__3513673_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513019_37, v__3513020_37);
-return;
-} else {
-Obj v__3513674_37 = PRIM_ISCONS(v__3513021_37);
-if (True == v__3513674_37) {
-Obj v__3513675_37 = PRIM_CAR(v__3513021_37);
-Obj v__3513109_37 = v__3513675_37;
-Obj v__3513676_37 = PRIM_CDR(v__3513021_37);
-Obj v__3513110_37 = v__3513676_37;
-R[1] = v__3513109_37;
-R[2] = v__3513019_37;
-R[3] = v__3513020_37;
-R[4] = v__3513110_37;
+Obj v__3513085_37 = R[1];
+Obj v__3513086_37 = R[2];
+Obj v__3513087_37 = R[3];
+Obj v__3513739_37 = PRIM_EQ(Nil, v__3513087_37);
+if (True == v__3513739_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513085_37, v__3513086_37);
+return;
+} else {
+Obj v__3513740_37 = PRIM_ISCONS(v__3513087_37);
+if (True == v__3513740_37) {
+Obj v__3513741_37 = PRIM_CAR(v__3513087_37);
+Obj v__3513175_37 = v__3513741_37;
+Obj v__3513742_37 = PRIM_CDR(v__3513087_37);
+Obj v__3513176_37 = v__3513742_37;
+R[1] = v__3513175_37;
+R[2] = v__3513085_37;
+R[3] = v__3513086_37;
+R[4] = v__3513176_37;
 saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513109_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513175_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1449,90 +1449,90 @@ return;
 }
 case 1:
 {
-Obj v__3513683_37= co->res;
+Obj v__3513749_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513683_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513749_37);
 return;
 }
 case 2:
 {
-Obj v__3513682_37= co->res;
-Obj v__3513109_37 = R[1];
+Obj v__3513748_37= co->res;
+Obj v__3513175_37 = R[1];
 saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513109_37, v__3513682_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513175_37, v__3513748_37);
 return;
 }
 case 3:
 {
-Obj v__3513681_37= co->res;
-Obj v__3513109_37 = R[1];
-R[1] = v__3513109_37;
+Obj v__3513747_37= co->res;
+Obj v__3513175_37 = R[1];
+R[1] = v__3513175_37;
 saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513681_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513747_37);
 return;
 }
 case 4:
 {
-Obj v__3513680_37= co->res;
-Obj v__3513109_37 = R[1];
-Obj v__3513019_37 = R[2];
-Obj v__3513020_37 = R[3];
-Obj v__3513110_37 = R[4];
-if (True == v__3513680_37) {
-R[1] = v__3513109_37;
+Obj v__3513746_37= co->res;
+Obj v__3513175_37 = R[1];
+Obj v__3513085_37 = R[2];
+Obj v__3513086_37 = R[3];
+Obj v__3513176_37 = R[4];
+if (True == v__3513746_37) {
+R[1] = v__3513175_37;
 saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513019_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513085_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513019_37, v__3513020_37, v__3513110_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513085_37, v__3513086_37, v__3513176_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3513679_37= co->res;
-Obj v__3513109_37 = R[1];
-Obj v__3513019_37 = R[2];
-Obj v__3513020_37 = R[3];
-Obj v__3513110_37 = R[4];
-Obj v__3513111_37 = v__3513679_37;
-R[1] = v__3513109_37;
-R[2] = v__3513019_37;
-R[3] = v__3513020_37;
-R[4] = v__3513110_37;
+Obj v__3513745_37= co->res;
+Obj v__3513175_37 = R[1];
+Obj v__3513085_37 = R[2];
+Obj v__3513086_37 = R[3];
+Obj v__3513176_37 = R[4];
+Obj v__3513177_37 = v__3513745_37;
+R[1] = v__3513175_37;
+R[2] = v__3513085_37;
+R[3] = v__3513086_37;
+R[4] = v__3513176_37;
 saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513019_37, v__3513111_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513085_37, v__3513177_37);
 return;
 }
 case 6:
 {
-Obj v__3513678_37= co->res;
-Obj v__3513109_37 = R[1];
-Obj v__3513019_37 = R[2];
-Obj v__3513020_37 = R[3];
-Obj v__3513110_37 = R[4];
-R[1] = v__3513109_37;
-R[2] = v__3513019_37;
-R[3] = v__3513020_37;
-R[4] = v__3513110_37;
+Obj v__3513744_37= co->res;
+Obj v__3513175_37 = R[1];
+Obj v__3513085_37 = R[2];
+Obj v__3513086_37 = R[3];
+Obj v__3513176_37 = R[4];
+R[1] = v__3513175_37;
+R[2] = v__3513085_37;
+R[3] = v__3513086_37;
+R[4] = v__3513176_37;
 saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513678_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513744_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3513677_37= co->res;
-Obj v__3513109_37 = R[1];
-Obj v__3513019_37 = R[2];
-Obj v__3513020_37 = R[3];
-Obj v__3513110_37 = R[4];
-R[1] = v__3513109_37;
-R[2] = v__3513019_37;
-R[3] = v__3513020_37;
-R[4] = v__3513110_37;
+Obj v__3513743_37= co->res;
+Obj v__3513175_37 = R[1];
+Obj v__3513085_37 = R[2];
+Obj v__3513086_37 = R[3];
+Obj v__3513176_37 = R[4];
+R[1] = v__3513175_37;
+R[2] = v__3513085_37;
+R[3] = v__3513086_37;
+R[4] = v__3513176_37;
 saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513677_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513743_37);
 return;
 }
 }
@@ -1544,8 +1544,8 @@ case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v__3513667_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v__3513667_37) {
+Obj v__3513733_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v__3513733_37) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1558,34 +1558,34 @@ return;
 }
 case 1:
 {
-Obj v__3513671_37= co->res;
+Obj v__3513737_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513671_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513737_37);
 return;
 }
 case 2:
 {
-Obj v__3513670_37= co->res;
+Obj v__3513736_37= co->res;
 Obj v_ns = R[1];
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513670_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513736_37);
 return;
 }
 case 3:
 {
-Obj v__3513669_37= co->res;
+Obj v__3513735_37= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
 saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513669_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513735_37);
 return;
 }
 case 4:
 {
-Obj v__3513668_37= co->res;
+Obj v__3513734_37= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v__3513668_37) {
+if (True == v__3513734_37) {
 coraReturn(co, v_var);
 return;
 } else {
@@ -1610,27 +1610,27 @@ return;
 }
 case 1:
 {
-Obj v__3513649_37= co->res;
-Obj v__3513108_37 = R[1];
+Obj v__3513715_37= co->res;
+Obj v__3513174_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3513649_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513108_37));
+coraCall1(co, v__3513715_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513174_37));
 return;
 }
 case 2:
 {
-Obj v__3513648_37= co->res;
-Obj v__3513108_37 = R[1];
-R[1] = v__3513108_37;
+Obj v__3513714_37= co->res;
+Obj v__3513174_37 = R[1];
+R[1] = v__3513174_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513648_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513714_37);
 return;
 }
 case 3:
 {
-Obj v__3513647_37= co->res;
+Obj v__3513713_37= co->res;
 Obj v_sexp = R[1];
-Obj v__3513108_37 = v__3513647_37;
-R[1] = v__3513108_37;
+Obj v__3513174_37 = v__3513713_37;
+R[1] = v__3513174_37;
 saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
 return;
@@ -1645,41 +1645,41 @@ case 0:
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v__3513650_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v__3513716_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v__3513650_37;
+R[3] = v__3513716_37;
 saveCont(co, clofun78, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v__3513660_37= co->res;
-Obj v__3513650_37 = R[1];
-Obj v__3513661_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513660_37);
-Obj v__3513662_37 = makeCons(co->gc, v__3513661_37, Nil);
-Obj v__3513663_37 = makeCons(co->gc, v__3513650_37, v__3513662_37);
-Obj v__3513664_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513663_37);
-Obj v__3513665_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513664_37);
-coraReturn(co, v__3513665_37);
+Obj v__3513726_37= co->res;
+Obj v__3513716_37 = R[1];
+Obj v__3513727_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513726_37);
+Obj v__3513728_37 = makeCons(co->gc, v__3513727_37, Nil);
+Obj v__3513729_37 = makeCons(co->gc, v__3513716_37, v__3513728_37);
+Obj v__3513730_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513729_37);
+Obj v__3513731_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513730_37);
+coraReturn(co, v__3513731_37);
 return;
 }
 case 2:
 {
-Obj v__3513653_37= co->res;
+Obj v__3513719_37= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v__3513650_37 = R[3];
-Obj v__3513654_37 = makeCons(co->gc, v_export, Nil);
-Obj v__3513655_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513654_37);
-Obj v__3513656_37 = makeCons(co->gc, v__3513655_37, Nil);
-Obj v__3513657_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513656_37);
-Obj v__3513658_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513657_37);
-Obj v__3513659_37 = makeCons(co->gc, v__3513658_37, v_body);
-R[1] = v__3513650_37;
+Obj v__3513716_37 = R[3];
+Obj v__3513720_37 = makeCons(co->gc, v_export, Nil);
+Obj v__3513721_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513720_37);
+Obj v__3513722_37 = makeCons(co->gc, v__3513721_37, Nil);
+Obj v__3513723_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513722_37);
+Obj v__3513724_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513723_37);
+Obj v__3513725_37 = makeCons(co->gc, v__3513724_37, v_body);
+R[1] = v__3513716_37;
 saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513653_37, v__3513659_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513719_37, v__3513725_37);
 return;
 }
 }
@@ -1690,9 +1690,9 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v__3513651_37 = makeCons(co->gc, v_imp, Nil);
-Obj v__3513652_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513651_37);
-coraReturn(co, v__3513652_37);
+Obj v__3513717_37 = makeCons(co->gc, v_imp, Nil);
+Obj v__3513718_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513717_37);
+coraReturn(co, v__3513718_37);
 return;
 }
 }
@@ -1715,62 +1715,62 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513012_37 = R[1];
-Obj v__3513013_37 = R[2];
-Obj v__3513014_37 = R[3];
-Obj v__3513015_37 = R[4];
-Obj v__3513102_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513014_37, v__3513012_37, v__3513013_37, v__3513015_37);
-Obj v__3513627_37 = PRIM_ISCONS(v__3513012_37);
-if (True == v__3513627_37) {
-Obj v__3513628_37 = PRIM_CAR(v__3513012_37);
-Obj v__3513629_37 = PRIM_ISCONS(v__3513628_37);
-if (True == v__3513629_37) {
-Obj v__3513630_37 = PRIM_CAR(v__3513012_37);
-Obj v__3513631_37 = PRIM_CAR(v__3513630_37);
-Obj v__3513632_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513631_37);
-if (True == v__3513632_37) {
-Obj v__3513633_37 = PRIM_CAR(v__3513012_37);
-Obj v__3513634_37 = PRIM_CDR(v__3513633_37);
-Obj v__3513635_37 = PRIM_ISCONS(v__3513634_37);
-if (True == v__3513635_37) {
-Obj v__3513636_37 = PRIM_CAR(v__3513012_37);
-Obj v__3513637_37 = PRIM_CDR(v__3513636_37);
-Obj v__3513638_37 = PRIM_CAR(v__3513637_37);
-Obj v__3513106_37 = v__3513638_37;
-Obj v__3513639_37 = PRIM_CAR(v__3513012_37);
-Obj v__3513640_37 = PRIM_CDR(v__3513639_37);
-Obj v__3513641_37 = PRIM_CDR(v__3513640_37);
-Obj v__3513642_37 = PRIM_EQ(Nil, v__3513641_37);
-if (True == v__3513642_37) {
-Obj v__3513643_37 = PRIM_CDR(v__3513012_37);
-Obj v__3513107_37 = v__3513643_37;
-Obj v__3513644_37 = makeCons(co->gc, v__3513106_37, v__3513013_37);
+Obj v__3513078_37 = R[1];
+Obj v__3513079_37 = R[2];
+Obj v__3513080_37 = R[3];
+Obj v__3513081_37 = R[4];
+Obj v__3513168_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513080_37, v__3513078_37, v__3513079_37, v__3513081_37);
+Obj v__3513693_37 = PRIM_ISCONS(v__3513078_37);
+if (True == v__3513693_37) {
+Obj v__3513694_37 = PRIM_CAR(v__3513078_37);
+Obj v__3513695_37 = PRIM_ISCONS(v__3513694_37);
+if (True == v__3513695_37) {
+Obj v__3513696_37 = PRIM_CAR(v__3513078_37);
+Obj v__3513697_37 = PRIM_CAR(v__3513696_37);
+Obj v__3513698_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513697_37);
+if (True == v__3513698_37) {
+Obj v__3513699_37 = PRIM_CAR(v__3513078_37);
+Obj v__3513700_37 = PRIM_CDR(v__3513699_37);
+Obj v__3513701_37 = PRIM_ISCONS(v__3513700_37);
+if (True == v__3513701_37) {
+Obj v__3513702_37 = PRIM_CAR(v__3513078_37);
+Obj v__3513703_37 = PRIM_CDR(v__3513702_37);
+Obj v__3513704_37 = PRIM_CAR(v__3513703_37);
+Obj v__3513172_37 = v__3513704_37;
+Obj v__3513705_37 = PRIM_CAR(v__3513078_37);
+Obj v__3513706_37 = PRIM_CDR(v__3513705_37);
+Obj v__3513707_37 = PRIM_CDR(v__3513706_37);
+Obj v__3513708_37 = PRIM_EQ(Nil, v__3513707_37);
+if (True == v__3513708_37) {
+Obj v__3513709_37 = PRIM_CDR(v__3513078_37);
+Obj v__3513173_37 = v__3513709_37;
+Obj v__3513710_37 = makeCons(co->gc, v__3513172_37, v__3513079_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513107_37, v__3513644_37, v__3513014_37, v__3513015_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513173_37, v__3513710_37, v__3513080_37, v__3513081_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513102_37);
+coraCall0(co, v__3513168_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513102_37);
+coraCall0(co, v__3513168_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513102_37);
+coraCall0(co, v__3513168_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513102_37);
+coraCall0(co, v__3513168_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513102_37);
+coraCall0(co, v__3513168_37);
 return;
 }
 }
@@ -1781,37 +1781,37 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513103_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513618_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513618_37) {
-Obj v__3513619_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513620_37 = PRIM_ISCONS(v__3513619_37);
-if (True == v__3513620_37) {
-Obj v__3513621_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513622_37 = PRIM_CAR(v__3513621_37);
-Obj v__3513623_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513622_37);
-if (True == v__3513623_37) {
-Obj v__3513624_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513625_37 = PRIM_CDR(v__3513624_37);
-Obj v__3513104_37 = v__3513625_37;
-Obj v__3513626_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513105_37 = v__3513626_37;
+Obj v__3513169_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513684_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513684_37) {
+Obj v__3513685_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513686_37 = PRIM_ISCONS(v__3513685_37);
+if (True == v__3513686_37) {
+Obj v__3513687_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513688_37 = PRIM_CAR(v__3513687_37);
+Obj v__3513689_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513688_37);
+if (True == v__3513689_37) {
+Obj v__3513690_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513691_37 = PRIM_CDR(v__3513690_37);
+Obj v__3513170_37 = v__3513691_37;
+Obj v__3513692_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513171_37 = v__3513692_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513105_37, closureRef(R[0], 2), v__3513104_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513171_37, closureRef(R[0], 2), v__3513170_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513103_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513103_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513103_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 }
@@ -1828,9 +1828,9 @@ return;
 }
 case 1:
 {
-Obj v__3513617_37= co->res;
+Obj v__3513683_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3513617_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3513683_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1848,17 +1848,17 @@ return;
 }
 case 1:
 {
-Obj v__3513615_37= co->res;
-Obj v__3513614_37 = R[1];
+Obj v__3513681_37= co->res;
+Obj v__3513680_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513614_37, v__3513615_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513680_37, v__3513681_37);
 return;
 }
 case 2:
 {
-Obj v__3513614_37= co->res;
+Obj v__3513680_37= co->res;
 Obj v_exp = R[1];
-R[1] = v__3513614_37;
+R[1] = v__3513680_37;
 saveCont(co, clofun72, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
@@ -1880,57 +1880,57 @@ return;
 }
 case 1:
 {
-Obj v__3513603_37= co->res;
-Obj v__3513602_37 = R[1];
+Obj v__3513669_37= co->res;
+Obj v__3513668_37 = R[1];
 Obj v_fn = R[2];
-Obj v__3513604_37 = makeCons(co->gc, v__3513603_37, Nil);
-Obj v__3513605_37 = makeCons(co->gc, v__3513602_37, v__3513604_37);
-Obj v__3513606_37 = makeCons(co->gc, v_fn, v__3513605_37);
-coraReturn(co, v__3513606_37);
+Obj v__3513670_37 = makeCons(co->gc, v__3513669_37, Nil);
+Obj v__3513671_37 = makeCons(co->gc, v__3513668_37, v__3513670_37);
+Obj v__3513672_37 = makeCons(co->gc, v_fn, v__3513671_37);
+coraReturn(co, v__3513672_37);
 return;
 }
 case 2:
 {
-Obj v__3513609_37= co->res;
-Obj v__3513607_37 = R[1];
+Obj v__3513675_37= co->res;
+Obj v__3513673_37 = R[1];
 Obj v_fn = R[2];
-Obj v__3513610_37 = makeCons(co->gc, v__3513609_37, Nil);
-Obj v__3513611_37 = makeCons(co->gc, v__3513607_37, v__3513610_37);
-Obj v__3513612_37 = makeCons(co->gc, v_fn, v__3513611_37);
-coraReturn(co, v__3513612_37);
+Obj v__3513676_37 = makeCons(co->gc, v__3513675_37, Nil);
+Obj v__3513677_37 = makeCons(co->gc, v__3513673_37, v__3513676_37);
+Obj v__3513678_37 = makeCons(co->gc, v_fn, v__3513677_37);
+coraReturn(co, v__3513678_37);
 return;
 }
 case 3:
 {
-Obj v__3513601_37= co->res;
+Obj v__3513667_37= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v__3513601_37) {
-Obj v__3513602_37 = PRIM_CAR(v_arglist);
-R[1] = v__3513602_37;
+if (True == v__3513667_37) {
+Obj v__3513668_37 = PRIM_CAR(v_arglist);
+R[1] = v__3513668_37;
 R[2] = v_fn;
 saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
 return;
 } else {
-Obj v__3513607_37 = PRIM_CAR(v_arglist);
-Obj v__3513608_37 = PRIM_CDR(v_arglist);
-R[1] = v__3513607_37;
+Obj v__3513673_37 = PRIM_CAR(v_arglist);
+Obj v__3513674_37 = PRIM_CDR(v_arglist);
+R[1] = v__3513673_37;
 R[2] = v_fn;
 saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513608_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513674_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3513600_37= co->res;
+Obj v__3513666_37= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
 saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513600_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513666_37);
 return;
 }
 }
@@ -1947,9 +1947,9 @@ return;
 }
 case 1:
 {
-Obj v__3513598_37= co->res;
+Obj v__3513664_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513598_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513664_37);
 return;
 }
 }
@@ -1959,50 +1959,50 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513007_37 = R[1];
-Obj v__3513578_37 = primIsSymbol(v__3513007_37);
-if (True == v__3513578_37) {
-Obj v__3513579_37 = makeCons(co->gc, v__3513007_37, Nil);
-Obj v__3513580_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513579_37);
-coraReturn(co, v__3513580_37);
+Obj v__3513073_37 = R[1];
+Obj v__3513644_37 = primIsSymbol(v__3513073_37);
+if (True == v__3513644_37) {
+Obj v__3513645_37 = makeCons(co->gc, v__3513073_37, Nil);
+Obj v__3513646_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513645_37);
+coraReturn(co, v__3513646_37);
 return;
 } else {
-Obj v__3513098_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513007_37);
-Obj v__3513587_37 = PRIM_ISCONS(v__3513007_37);
-if (True == v__3513587_37) {
-Obj v__3513588_37 = PRIM_CAR(v__3513007_37);
-Obj v__3513589_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513588_37);
-if (True == v__3513589_37) {
-Obj v__3513590_37 = PRIM_CDR(v__3513007_37);
-Obj v__3513591_37 = PRIM_ISCONS(v__3513590_37);
-if (True == v__3513591_37) {
-Obj v__3513592_37 = PRIM_CDR(v__3513007_37);
-Obj v__3513593_37 = PRIM_CAR(v__3513592_37);
-Obj v__3513101_37 = v__3513593_37;
-Obj v__3513594_37 = PRIM_CDR(v__3513007_37);
-Obj v__3513595_37 = PRIM_CDR(v__3513594_37);
-Obj v__3513596_37 = PRIM_EQ(Nil, v__3513595_37);
-if (True == v__3513596_37) {
-coraReturn(co, v__3513101_37);
+Obj v__3513164_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513073_37);
+Obj v__3513653_37 = PRIM_ISCONS(v__3513073_37);
+if (True == v__3513653_37) {
+Obj v__3513654_37 = PRIM_CAR(v__3513073_37);
+Obj v__3513655_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513654_37);
+if (True == v__3513655_37) {
+Obj v__3513656_37 = PRIM_CDR(v__3513073_37);
+Obj v__3513657_37 = PRIM_ISCONS(v__3513656_37);
+if (True == v__3513657_37) {
+Obj v__3513658_37 = PRIM_CDR(v__3513073_37);
+Obj v__3513659_37 = PRIM_CAR(v__3513658_37);
+Obj v__3513167_37 = v__3513659_37;
+Obj v__3513660_37 = PRIM_CDR(v__3513073_37);
+Obj v__3513661_37 = PRIM_CDR(v__3513660_37);
+Obj v__3513662_37 = PRIM_EQ(Nil, v__3513661_37);
+if (True == v__3513662_37) {
+coraReturn(co, v__3513167_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513098_37);
+coraCall0(co, v__3513164_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513098_37);
+coraCall0(co, v__3513164_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513098_37);
+coraCall0(co, v__3513164_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513098_37);
+coraCall0(co, v__3513164_37);
 return;
 }
 }
@@ -2014,15 +2014,15 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513581_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513581_37) {
-Obj v__3513582_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513099_37 = v__3513582_37;
-Obj v__3513583_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513100_37 = v__3513583_37;
-Obj v__3513584_37 = makeCons(co->gc, v__3513099_37, v__3513100_37);
+Obj v__3513647_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513647_37) {
+Obj v__3513648_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513165_37 = v__3513648_37;
+Obj v__3513649_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513166_37 = v__3513649_37;
+Obj v__3513650_37 = makeCons(co->gc, v__3513165_37, v__3513166_37);
 saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513584_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513650_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,9 +2031,9 @@ return;
 }
 case 1:
 {
-Obj v__3513585_37= co->res;
-Obj v__3513586_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513585_37);
-coraReturn(co, v__3513586_37);
+Obj v__3513651_37= co->res;
+Obj v__3513652_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513651_37);
+coraReturn(co, v__3513652_37);
 return;
 }
 }
@@ -2044,9 +2044,9 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513576_37 = PRIM_CDR(v_exp);
+Obj v__3513642_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513576_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513642_37);
 return;
 }
 }
@@ -2056,25 +2056,25 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513003_37 = R[1];
-Obj v__3513091_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513003_37);
-Obj v__3513571_37 = PRIM_ISCONS(v__3513003_37);
-if (True == v__3513571_37) {
-Obj v__3513572_37 = PRIM_CAR(v__3513003_37);
-Obj v__3513097_37 = v__3513572_37;
-Obj v__3513573_37 = PRIM_CDR(v__3513003_37);
-Obj v__3513574_37 = PRIM_EQ(Nil, v__3513573_37);
-if (True == v__3513574_37) {
-coraReturn(co, v__3513097_37);
+Obj v__3513069_37 = R[1];
+Obj v__3513157_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513069_37);
+Obj v__3513637_37 = PRIM_ISCONS(v__3513069_37);
+if (True == v__3513637_37) {
+Obj v__3513638_37 = PRIM_CAR(v__3513069_37);
+Obj v__3513163_37 = v__3513638_37;
+Obj v__3513639_37 = PRIM_CDR(v__3513069_37);
+Obj v__3513640_37 = PRIM_EQ(Nil, v__3513639_37);
+if (True == v__3513640_37) {
+coraReturn(co, v__3513163_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513091_37);
+coraCall0(co, v__3513157_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513091_37);
+coraCall0(co, v__3513157_37);
 return;
 }
 }
@@ -2085,39 +2085,39 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513092_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v__3513559_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513559_37) {
-Obj v__3513560_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513095_37 = v__3513560_37;
-Obj v__3513561_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513562_37 = PRIM_ISCONS(v__3513561_37);
-if (True == v__3513562_37) {
-Obj v__3513563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513564_37 = PRIM_CAR(v__3513563_37);
-Obj v__3513096_37 = v__3513564_37;
-Obj v__3513565_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513566_37 = PRIM_CDR(v__3513565_37);
-Obj v__3513567_37 = PRIM_EQ(Nil, v__3513566_37);
-if (True == v__3513567_37) {
-Obj v__3513568_37 = makeCons(co->gc, v__3513096_37, Nil);
-Obj v__3513569_37 = makeCons(co->gc, v__3513095_37, v__3513568_37);
-Obj v__3513570_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513569_37);
-coraReturn(co, v__3513570_37);
+Obj v__3513158_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
+Obj v__3513625_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513625_37) {
+Obj v__3513626_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513161_37 = v__3513626_37;
+Obj v__3513627_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513628_37 = PRIM_ISCONS(v__3513627_37);
+if (True == v__3513628_37) {
+Obj v__3513629_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513630_37 = PRIM_CAR(v__3513629_37);
+Obj v__3513162_37 = v__3513630_37;
+Obj v__3513631_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513632_37 = PRIM_CDR(v__3513631_37);
+Obj v__3513633_37 = PRIM_EQ(Nil, v__3513632_37);
+if (True == v__3513633_37) {
+Obj v__3513634_37 = makeCons(co->gc, v__3513162_37, Nil);
+Obj v__3513635_37 = makeCons(co->gc, v__3513161_37, v__3513634_37);
+Obj v__3513636_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513635_37);
+coraReturn(co, v__3513636_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513158_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513158_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513092_37);
+coraCall0(co, v__3513158_37);
 return;
 }
 }
@@ -2128,15 +2128,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513552_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513552_37) {
-Obj v__3513553_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513093_37 = v__3513553_37;
-Obj v__3513554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513094_37 = v__3513554_37;
-R[1] = v__3513093_37;
+Obj v__3513618_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513618_37) {
+Obj v__3513619_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513159_37 = v__3513619_37;
+Obj v__3513620_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513160_37 = v__3513620_37;
+R[1] = v__3513159_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513094_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513160_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2146,12 +2146,12 @@ return;
 }
 case 1:
 {
-Obj v__3513555_37= co->res;
-Obj v__3513093_37 = R[1];
-Obj v__3513556_37 = makeCons(co->gc, v__3513555_37, Nil);
-Obj v__3513557_37 = makeCons(co->gc, v__3513093_37, v__3513556_37);
-Obj v__3513558_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513557_37);
-coraReturn(co, v__3513558_37);
+Obj v__3513621_37= co->res;
+Obj v__3513159_37 = R[1];
+Obj v__3513622_37 = makeCons(co->gc, v__3513621_37, Nil);
+Obj v__3513623_37 = makeCons(co->gc, v__3513159_37, v__3513622_37);
+Obj v__3513624_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513623_37);
+coraReturn(co, v__3513624_37);
 return;
 }
 }
@@ -2168,16 +2168,16 @@ return;
 }
 case 1:
 {
-Obj v__3513550_37= co->res;
+Obj v__3513616_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513550_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513616_37);
 return;
 }
 case 2:
 {
-Obj v__3513549_37= co->res;
+Obj v__3513615_37= co->res;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513549_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513615_37);
 return;
 }
 }
@@ -2218,61 +2218,61 @@ return;
 }
 case 1:
 {
-Obj v__3513538_37= co->res;
-Obj v__3513088_37 = R[1];
-Obj v__3513090_37 = R[2];
-Obj v__3513539_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513090_37);
-Obj v__3513540_37 = makeCons(co->gc, v__3513539_37, v__3513088_37);
-Obj v__3513541_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513540_37);
-Obj v__3513542_37 = makeCons(co->gc, v__3513541_37, Nil);
-Obj v__3513543_37 = makeCons(co->gc, v__3513090_37, v__3513542_37);
-Obj v__3513544_37 = makeCons(co->gc, v__3513538_37, v__3513543_37);
-Obj v__3513545_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513544_37);
-coraReturn(co, v__3513545_37);
+Obj v__3513604_37= co->res;
+Obj v__3513154_37 = R[1];
+Obj v__3513156_37 = R[2];
+Obj v__3513605_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513156_37);
+Obj v__3513606_37 = makeCons(co->gc, v__3513605_37, v__3513154_37);
+Obj v__3513607_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513606_37);
+Obj v__3513608_37 = makeCons(co->gc, v__3513607_37, Nil);
+Obj v__3513609_37 = makeCons(co->gc, v__3513156_37, v__3513608_37);
+Obj v__3513610_37 = makeCons(co->gc, v__3513604_37, v__3513609_37);
+Obj v__3513611_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513610_37);
+coraReturn(co, v__3513611_37);
 return;
 }
 case 2:
 {
-Obj v__3513537_37= co->res;
+Obj v__3513603_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513088_37 = R[2];
-Obj v__3513090_37 = v__3513537_37;
-R[1] = v__3513088_37;
-R[2] = v__3513090_37;
+Obj v__3513154_37 = R[2];
+Obj v__3513156_37 = v__3513603_37;
+R[1] = v__3513154_37;
+R[2] = v__3513156_37;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513536_37= co->res;
+Obj v__3513602_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513088_37 = R[2];
-Obj v__3513089_37 = v__3513536_37;
+Obj v__3513154_37 = R[2];
+Obj v__3513155_37 = v__3513602_37;
 R[1] = v_exp;
-R[2] = v__3513088_37;
+R[2] = v__3513154_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513089_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513155_37);
 return;
 }
 case 4:
 {
-Obj v__3513535_37= co->res;
+Obj v__3513601_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513088_37 = v__3513535_37;
+Obj v__3513154_37 = v__3513601_37;
 R[1] = v_exp;
-R[2] = v__3513088_37;
+R[2] = v__3513154_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513088_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513154_37);
 return;
 }
 case 5:
 {
-Obj v__3513534_37= co->res;
+Obj v__3513600_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513534_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513600_37);
 return;
 }
 }
@@ -2283,25 +2283,25 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v__3513528_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v__3513528_37) {
+Obj v__3513594_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v__3513594_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513529_37 = primGenSym(co);
-Obj v__3513530_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v__3513529_37;
+Obj v__3513595_37 = primGenSym(co);
+Obj v__3513596_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v__3513595_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513530_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513596_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513531_37= co->res;
-Obj v__3513529_37 = R[1];
-Obj v__3513532_37 = makeCons(co->gc, v__3513529_37, v__3513531_37);
-coraReturn(co, v__3513532_37);
+Obj v__3513597_37= co->res;
+Obj v__3513595_37 = R[1];
+Obj v__3513598_37 = makeCons(co->gc, v__3513595_37, v__3513597_37);
+coraReturn(co, v__3513598_37);
 return;
 }
 }
@@ -2318,45 +2318,45 @@ return;
 }
 case 1:
 {
-Obj v__3513525_37= co->res;
-Obj v__3513087_37 = R[1];
-Obj v__3513526_37 = primNot(v__3513525_37);
-if (True == v__3513526_37) {
+Obj v__3513591_37= co->res;
+Obj v__3513153_37 = R[1];
+Obj v__3513592_37 = primNot(v__3513591_37);
+if (True == v__3513592_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3513087_37);
+coraReturn(co, v__3513153_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3513524_37= co->res;
-Obj v__3513087_37 = R[1];
-R[1] = v__3513087_37;
+Obj v__3513590_37= co->res;
+Obj v__3513153_37 = R[1];
+R[1] = v__3513153_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513524_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513590_37);
 return;
 }
 case 3:
 {
-Obj v__3513519_37= co->res;
-Obj v__3513086_37 = v__3513519_37;
-Obj v__3513520_37 = PRIM_CAR(v__3513086_37);
-Obj v__3513087_37 = v__3513520_37;
-Obj v__3513523_37 = PRIM_CDR(v__3513086_37);
-R[1] = v__3513087_37;
+Obj v__3513585_37= co->res;
+Obj v__3513152_37 = v__3513585_37;
+Obj v__3513586_37 = PRIM_CAR(v__3513152_37);
+Obj v__3513153_37 = v__3513586_37;
+Obj v__3513589_37 = PRIM_CDR(v__3513152_37);
+R[1] = v__3513153_37;
 saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513087_37), v__3513523_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513153_37), v__3513589_37);
 return;
 }
 case 4:
 {
-Obj v__3513517_37= co->res;
-Obj v__3513085_37 = v__3513517_37;
+Obj v__3513583_37= co->res;
+Obj v__3513151_37 = v__3513583_37;
 saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513085_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513151_37);
 return;
 }
 }
@@ -2367,9 +2367,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513521_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v__3513522_37 = primNot(v__3513521_37);
-coraReturn(co, v__3513522_37);
+Obj v__3513587_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v__3513588_37 = primNot(v__3513587_37);
+coraReturn(co, v__3513588_37);
 return;
 }
 }
@@ -2380,9 +2380,9 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513518_37 = PRIM_CDR(v_x);
+Obj v__3513584_37 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513518_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513584_37);
 return;
 }
 }
@@ -2394,25 +2394,25 @@ case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v__3513511_37 = PRIM_EQ(v_l1, Nil);
-if (True == v__3513511_37) {
+Obj v__3513577_37 = PRIM_EQ(v_l1, Nil);
+if (True == v__3513577_37) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v__3513512_37 = PRIM_CAR(v_l1);
-Obj v__3513513_37 = PRIM_CDR(v_l1);
-R[1] = v__3513512_37;
+Obj v__3513578_37 = PRIM_CAR(v_l1);
+Obj v__3513579_37 = PRIM_CDR(v_l1);
+R[1] = v__3513578_37;
 saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513513_37, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513579_37, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v__3513514_37= co->res;
-Obj v__3513512_37 = R[1];
-Obj v__3513515_37 = makeCons(co->gc, v__3513512_37, v__3513514_37);
-coraReturn(co, v__3513515_37);
+Obj v__3513580_37= co->res;
+Obj v__3513578_37 = R[1];
+Obj v__3513581_37 = makeCons(co->gc, v__3513578_37, v__3513580_37);
+coraReturn(co, v__3513581_37);
 return;
 }
 }
@@ -2438,14 +2438,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v__3513502_37 = PRIM_ISCONS(v_l);
-if (True == v__3513502_37) {
-Obj v__3513503_37 = PRIM_CAR(v_l);
+Obj v__3513568_37 = PRIM_ISCONS(v_l);
+if (True == v__3513568_37) {
+Obj v__3513569_37 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v__3513503_37);
+coraCall1(co, v_fn, v__3513569_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2455,21 +2455,21 @@ return;
 }
 case 1:
 {
-Obj v__3513504_37= co->res;
+Obj v__3513570_37= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v__3513504_37) {
-Obj v__3513505_37 = PRIM_CAR(v_l);
-Obj v__3513506_37 = makeCons(co->gc, v__3513505_37, v_res);
-Obj v__3513507_37 = PRIM_CDR(v_l);
+if (True == v__3513570_37) {
+Obj v__3513571_37 = PRIM_CAR(v_l);
+Obj v__3513572_37 = makeCons(co->gc, v__3513571_37, v_res);
+Obj v__3513573_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513506_37, v_fn, v__3513507_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513572_37, v_fn, v__3513573_37);
 return;
 } else {
-Obj v__3513508_37 = PRIM_CDR(v_l);
+Obj v__3513574_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513508_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513574_37);
 return;
 }
 }
@@ -2494,15 +2494,15 @@ case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v__3513497_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513497_37) {
+Obj v__3513563_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513563_37) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v__3513498_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v__3513499_37 = PRIM_CDR(v_l);
+Obj v__3513564_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v__3513565_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513498_37, v__3513499_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513564_37, v__3513565_37);
 return;
 }
 }
@@ -2523,25 +2523,25 @@ return;
 }
 case 1:
 {
-Obj v__3513495_37= co->res;
-Obj v__3513494_37 = R[1];
+Obj v__3513561_37= co->res;
+Obj v__3513560_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513494_37, v__3513495_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513560_37, v__3513561_37);
 return;
 }
 case 2:
 {
-Obj v__3513492_37= co->res;
+Obj v__3513558_37= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v__3513492_37) {
+if (True == v__3513558_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
 return;
 } else {
-Obj v__3513493_37 = PRIM_CAR(v_rules);
-Obj v__3513494_37 = makeCons(co->gc, v__3513493_37, v_res);
-R[1] = v__3513494_37;
+Obj v__3513559_37 = PRIM_CAR(v_rules);
+Obj v__3513560_37 = makeCons(co->gc, v__3513559_37, v_res);
+R[1] = v__3513560_37;
 saveCont(co, clofun50, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
 return;
@@ -2569,103 +2569,103 @@ case 0:
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v__3513439_37 = PRIM_EQ(Nil, v_input);
-if (True == v__3513439_37) {
+Obj v__3513505_37 = PRIM_EQ(Nil, v_input);
+if (True == v__3513505_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
 return;
 } else {
-Obj v__3513074_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v__3513457_37 = PRIM_ISCONS(v_input);
-if (True == v__3513457_37) {
-Obj v__3513458_37 = PRIM_CAR(v_input);
-Obj v__3513459_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513458_37);
-if (True == v__3513459_37) {
-Obj v__3513460_37 = PRIM_CDR(v_input);
-Obj v__3513461_37 = PRIM_ISCONS(v__3513460_37);
-if (True == v__3513461_37) {
-Obj v__3513462_37 = PRIM_CDR(v_input);
-Obj v__3513463_37 = PRIM_CAR(v__3513462_37);
-Obj v__3513081_37 = v__3513463_37;
-Obj v__3513464_37 = PRIM_CDR(v_input);
-Obj v__3513465_37 = PRIM_CDR(v__3513464_37);
-Obj v__3513466_37 = PRIM_ISCONS(v__3513465_37);
-if (True == v__3513466_37) {
-Obj v__3513467_37 = PRIM_CDR(v_input);
-Obj v__3513468_37 = PRIM_CDR(v__3513467_37);
-Obj v__3513469_37 = PRIM_CAR(v__3513468_37);
-Obj v__3513470_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513469_37);
-if (True == v__3513470_37) {
-Obj v__3513471_37 = PRIM_CDR(v_input);
-Obj v__3513472_37 = PRIM_CDR(v__3513471_37);
-Obj v__3513473_37 = PRIM_CDR(v__3513472_37);
-Obj v__3513474_37 = PRIM_ISCONS(v__3513473_37);
-if (True == v__3513474_37) {
-Obj v__3513475_37 = PRIM_CDR(v_input);
-Obj v__3513476_37 = PRIM_CDR(v__3513475_37);
-Obj v__3513477_37 = PRIM_CDR(v__3513476_37);
-Obj v__3513478_37 = PRIM_CAR(v__3513477_37);
-Obj v__3513082_37 = v__3513478_37;
-Obj v__3513479_37 = PRIM_CDR(v_input);
-Obj v__3513480_37 = PRIM_CDR(v__3513479_37);
-Obj v__3513481_37 = PRIM_CDR(v__3513480_37);
-Obj v__3513482_37 = PRIM_CDR(v__3513481_37);
-Obj v__3513083_37 = v__3513482_37;
-R[1] = v__3513081_37;
-R[2] = v__3513082_37;
+Obj v__3513140_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
+Obj v__3513523_37 = PRIM_ISCONS(v_input);
+if (True == v__3513523_37) {
+Obj v__3513524_37 = PRIM_CAR(v_input);
+Obj v__3513525_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513524_37);
+if (True == v__3513525_37) {
+Obj v__3513526_37 = PRIM_CDR(v_input);
+Obj v__3513527_37 = PRIM_ISCONS(v__3513526_37);
+if (True == v__3513527_37) {
+Obj v__3513528_37 = PRIM_CDR(v_input);
+Obj v__3513529_37 = PRIM_CAR(v__3513528_37);
+Obj v__3513147_37 = v__3513529_37;
+Obj v__3513530_37 = PRIM_CDR(v_input);
+Obj v__3513531_37 = PRIM_CDR(v__3513530_37);
+Obj v__3513532_37 = PRIM_ISCONS(v__3513531_37);
+if (True == v__3513532_37) {
+Obj v__3513533_37 = PRIM_CDR(v_input);
+Obj v__3513534_37 = PRIM_CDR(v__3513533_37);
+Obj v__3513535_37 = PRIM_CAR(v__3513534_37);
+Obj v__3513536_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513535_37);
+if (True == v__3513536_37) {
+Obj v__3513537_37 = PRIM_CDR(v_input);
+Obj v__3513538_37 = PRIM_CDR(v__3513537_37);
+Obj v__3513539_37 = PRIM_CDR(v__3513538_37);
+Obj v__3513540_37 = PRIM_ISCONS(v__3513539_37);
+if (True == v__3513540_37) {
+Obj v__3513541_37 = PRIM_CDR(v_input);
+Obj v__3513542_37 = PRIM_CDR(v__3513541_37);
+Obj v__3513543_37 = PRIM_CDR(v__3513542_37);
+Obj v__3513544_37 = PRIM_CAR(v__3513543_37);
+Obj v__3513148_37 = v__3513544_37;
+Obj v__3513545_37 = PRIM_CDR(v_input);
+Obj v__3513546_37 = PRIM_CDR(v__3513545_37);
+Obj v__3513547_37 = PRIM_CDR(v__3513546_37);
+Obj v__3513548_37 = PRIM_CDR(v__3513547_37);
+Obj v__3513149_37 = v__3513548_37;
+R[1] = v__3513147_37;
+R[2] = v__3513148_37;
 R[3] = v_result;
-R[4] = v__3513083_37;
+R[4] = v__3513149_37;
 saveCont(co, clofun48, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513074_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513074_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513074_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513074_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513074_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513074_37);
+coraCall0(co, v__3513140_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513483_37= co->res;
-Obj v__3513081_37 = R[1];
-Obj v__3513082_37 = R[2];
+Obj v__3513549_37= co->res;
+Obj v__3513147_37 = R[1];
+Obj v__3513148_37 = R[2];
 Obj v_result = R[3];
-Obj v__3513083_37 = R[4];
-Obj v__3513484_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513483_37);
-Obj v__3513084_37 = v__3513484_37;
-Obj v__3513485_37 = makeCons(co->gc, v__3513081_37, Nil);
-Obj v__3513486_37 = makeCons(co->gc, v__3513082_37, v__3513485_37);
-Obj v__3513487_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513486_37);
-Obj v__3513488_37 = makeCons(co->gc, v__3513084_37, v_result);
-Obj v__3513489_37 = makeCons(co->gc, v__3513487_37, v__3513488_37);
+Obj v__3513149_37 = R[4];
+Obj v__3513550_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513549_37);
+Obj v__3513150_37 = v__3513550_37;
+Obj v__3513551_37 = makeCons(co->gc, v__3513147_37, Nil);
+Obj v__3513552_37 = makeCons(co->gc, v__3513148_37, v__3513551_37);
+Obj v__3513553_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513552_37);
+Obj v__3513554_37 = makeCons(co->gc, v__3513150_37, v_result);
+Obj v__3513555_37 = makeCons(co->gc, v__3513553_37, v__3513554_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513083_37, Nil, v__3513489_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513149_37, Nil, v__3513555_37);
 return;
 }
 }
@@ -2675,53 +2675,53 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513075_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513444_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513444_37) {
-Obj v__3513445_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513446_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513445_37);
-if (True == v__3513446_37) {
-Obj v__3513447_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513448_37 = PRIM_ISCONS(v__3513447_37);
-if (True == v__3513448_37) {
-Obj v__3513449_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513450_37 = PRIM_CAR(v__3513449_37);
-Obj v__3513078_37 = v__3513450_37;
-Obj v__3513451_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513452_37 = PRIM_CDR(v__3513451_37);
-Obj v__3513079_37 = v__3513452_37;
-R[1] = v__3513078_37;
-R[2] = v__3513079_37;
+Obj v__3513141_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513510_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513510_37) {
+Obj v__3513511_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513512_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513511_37);
+if (True == v__3513512_37) {
+Obj v__3513513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513514_37 = PRIM_ISCONS(v__3513513_37);
+if (True == v__3513514_37) {
+Obj v__3513515_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513516_37 = PRIM_CAR(v__3513515_37);
+Obj v__3513144_37 = v__3513516_37;
+Obj v__3513517_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513518_37 = PRIM_CDR(v__3513517_37);
+Obj v__3513145_37 = v__3513518_37;
+R[1] = v__3513144_37;
+R[2] = v__3513145_37;
 saveCont(co, clofun47, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513075_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513075_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513075_37);
+coraCall0(co, v__3513141_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513453_37= co->res;
-Obj v__3513078_37 = R[1];
-Obj v__3513079_37 = R[2];
-Obj v__3513454_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513453_37);
-Obj v__3513080_37 = v__3513454_37;
-Obj v__3513455_37 = makeCons(co->gc, v__3513080_37, closureRef(R[0], 2));
-Obj v__3513456_37 = makeCons(co->gc, v__3513078_37, v__3513455_37);
+Obj v__3513519_37= co->res;
+Obj v__3513144_37 = R[1];
+Obj v__3513145_37 = R[2];
+Obj v__3513520_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513519_37);
+Obj v__3513146_37 = v__3513520_37;
+Obj v__3513521_37 = makeCons(co->gc, v__3513146_37, closureRef(R[0], 2));
+Obj v__3513522_37 = makeCons(co->gc, v__3513144_37, v__3513521_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513079_37, Nil, v__3513456_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513145_37, Nil, v__3513522_37);
 return;
 }
 }
@@ -2731,15 +2731,15 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513440_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513440_37) {
-Obj v__3513441_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513076_37 = v__3513441_37;
-Obj v__3513442_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513077_37 = v__3513442_37;
-Obj v__3513443_37 = makeCons(co->gc, v__3513076_37, closureRef(R[0], 1));
+Obj v__3513506_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513506_37) {
+Obj v__3513507_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513142_37 = v__3513507_37;
+Obj v__3513508_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513143_37 = v__3513508_37;
+Obj v__3513509_37 = makeCons(co->gc, v__3513142_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513077_37, v__3513443_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513143_37, v__3513509_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2774,47 +2774,47 @@ return;
 }
 case 1:
 {
-Obj v__3513426_37= co->res;
-Obj v__3513068_37 = R[1];
-Obj v__3513069_37 = v__3513426_37;
-Obj v__3513072_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513068_37, v__3513069_37);
-Obj v__3513433_37 = PRIM_ISCONS(v__3513068_37);
-if (True == v__3513433_37) {
-Obj v__3513434_37 = PRIM_CAR(v__3513068_37);
-Obj v__3513435_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513434_37);
-Obj v__3513436_37 = primNot(v__3513435_37);
-if (True == v__3513436_37) {
+Obj v__3513492_37= co->res;
+Obj v__3513134_37 = R[1];
+Obj v__3513135_37 = v__3513492_37;
+Obj v__3513138_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513134_37, v__3513135_37);
+Obj v__3513499_37 = PRIM_ISCONS(v__3513134_37);
+if (True == v__3513499_37) {
+Obj v__3513500_37 = PRIM_CAR(v__3513134_37);
+Obj v__3513501_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513500_37);
+Obj v__3513502_37 = primNot(v__3513501_37);
+if (True == v__3513502_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513072_37, True);
+coraCall1(co, v__3513138_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513072_37, False);
+coraCall1(co, v__3513138_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513072_37, False);
+coraCall1(co, v__3513138_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513425_37= co->res;
+Obj v__3513491_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513068_37 = v__3513425_37;
-R[1] = v__3513068_37;
+Obj v__3513134_37 = v__3513491_37;
+R[1] = v__3513134_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513424_37= co->res;
+Obj v__3513490_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513424_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513490_37);
 return;
 }
 }
@@ -2824,13 +2824,13 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513071_37 = R[1];
-if (True == v__3513071_37) {
-Obj v__3513427_37 = primGenSym(co);
-Obj v__3513073_37 = v__3513427_37;
-R[1] = v__3513073_37;
+Obj v__3513137_37 = R[1];
+if (True == v__3513137_37) {
+Obj v__3513493_37 = primGenSym(co);
+Obj v__3513139_37 = v__3513493_37;
+R[1] = v__3513139_37;
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513073_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513139_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -2840,13 +2840,13 @@ return;
 }
 case 1:
 {
-Obj v__3513428_37= co->res;
-Obj v__3513073_37 = R[1];
-Obj v__3513429_37 = makeCons(co->gc, v__3513428_37, Nil);
-Obj v__3513430_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513429_37);
-Obj v__3513431_37 = makeCons(co->gc, v__3513073_37, v__3513430_37);
-Obj v__3513432_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513431_37);
-coraReturn(co, v__3513432_37);
+Obj v__3513494_37= co->res;
+Obj v__3513139_37 = R[1];
+Obj v__3513495_37 = makeCons(co->gc, v__3513494_37, Nil);
+Obj v__3513496_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513495_37);
+Obj v__3513497_37 = makeCons(co->gc, v__3513139_37, v__3513496_37);
+Obj v__3513498_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513497_37);
+coraReturn(co, v__3513498_37);
 return;
 }
 }
@@ -2866,49 +2866,49 @@ return;
 }
 case 1:
 {
-Obj v__3513422_37= co->res;
-Obj v__3513062_37 = R[1];
-if (True == v__3513422_37) {
+Obj v__3513488_37= co->res;
+Obj v__3513128_37 = R[1];
+if (True == v__3513488_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513062_37, True);
+coraCall1(co, v__3513128_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513062_37, False);
+coraCall1(co, v__3513128_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513420_37= co->res;
+Obj v__3513486_37= co->res;
 Obj v_rules = R[1];
-Obj v__3513062_37 = R[2];
-if (True == v__3513420_37) {
-Obj v__3513421_37 = PRIM_CDR(v_rules);
-R[1] = v__3513062_37;
+Obj v__3513128_37 = R[2];
+if (True == v__3513486_37) {
+Obj v__3513487_37 = PRIM_CDR(v_rules);
+R[1] = v__3513128_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513421_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513487_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513062_37, False);
+coraCall1(co, v__3513128_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3513402_37= co->res;
+Obj v__3513468_37= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v__3513402_37) {
-Obj v__3513403_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3513404_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513403_37);
-coraReturn(co, v__3513404_37);
+if (True == v__3513468_37) {
+Obj v__3513469_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3513470_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513469_37);
+coraReturn(co, v__3513470_37);
 return;
 } else {
-Obj v__3513062_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v__3513128_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v__3513062_37;
+R[2] = v__3513128_37;
 saveCont(co, clofun42, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
 return;
@@ -2921,16 +2921,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513061_37 = R[1];
-if (True == v__3513061_37) {
-Obj v__3513405_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513063_37 = v__3513405_37;
-Obj v__3513406_37 = primGenSym(co);
-Obj v__3513064_37 = v__3513406_37;
-R[1] = v__3513063_37;
-R[2] = v__3513064_37;
+Obj v__3513127_37 = R[1];
+if (True == v__3513127_37) {
+Obj v__3513471_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513129_37 = v__3513471_37;
+Obj v__3513472_37 = primGenSym(co);
+Obj v__3513130_37 = v__3513472_37;
+R[1] = v__3513129_37;
+R[2] = v__3513130_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513064_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513130_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2940,53 +2940,53 @@ return;
 }
 case 1:
 {
-Obj v__3513412_37= co->res;
-Obj v__3513066_37 = R[1];
-Obj v__3513064_37 = R[2];
-Obj v__3513067_37 = v__3513412_37;
-Obj v__3513413_37 = makeCons(co->gc, v__3513067_37, Nil);
-Obj v__3513414_37 = makeCons(co->gc, Nil, v__3513413_37);
-Obj v__3513415_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513414_37);
-Obj v__3513416_37 = makeCons(co->gc, v__3513066_37, Nil);
-Obj v__3513417_37 = makeCons(co->gc, v__3513415_37, v__3513416_37);
-Obj v__3513418_37 = makeCons(co->gc, v__3513064_37, v__3513417_37);
-Obj v__3513419_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513418_37);
-coraReturn(co, v__3513419_37);
+Obj v__3513478_37= co->res;
+Obj v__3513132_37 = R[1];
+Obj v__3513130_37 = R[2];
+Obj v__3513133_37 = v__3513478_37;
+Obj v__3513479_37 = makeCons(co->gc, v__3513133_37, Nil);
+Obj v__3513480_37 = makeCons(co->gc, Nil, v__3513479_37);
+Obj v__3513481_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513480_37);
+Obj v__3513482_37 = makeCons(co->gc, v__3513132_37, Nil);
+Obj v__3513483_37 = makeCons(co->gc, v__3513481_37, v__3513482_37);
+Obj v__3513484_37 = makeCons(co->gc, v__3513130_37, v__3513483_37);
+Obj v__3513485_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513484_37);
+coraReturn(co, v__3513485_37);
 return;
 }
 case 2:
 {
-Obj v__3513409_37= co->res;
-Obj v__3513064_37 = R[1];
-Obj v__3513066_37 = v__3513409_37;
-Obj v__3513410_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513411_37 = PRIM_CDR(v__3513410_37);
-R[1] = v__3513066_37;
-R[2] = v__3513064_37;
+Obj v__3513475_37= co->res;
+Obj v__3513130_37 = R[1];
+Obj v__3513132_37 = v__3513475_37;
+Obj v__3513476_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513477_37 = PRIM_CDR(v__3513476_37);
+R[1] = v__3513132_37;
+R[2] = v__3513130_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513411_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513477_37);
 return;
 }
 case 3:
 {
-Obj v__3513408_37= co->res;
-Obj v__3513065_37 = R[1];
-Obj v__3513064_37 = R[2];
-R[1] = v__3513064_37;
+Obj v__3513474_37= co->res;
+Obj v__3513131_37 = R[1];
+Obj v__3513130_37 = R[2];
+R[1] = v__3513130_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513408_37, closureRef(R[0], 0), v__3513065_37, v__3513064_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513474_37, closureRef(R[0], 0), v__3513131_37, v__3513130_37);
 return;
 }
 case 4:
 {
-Obj v__3513407_37= co->res;
-Obj v__3513063_37 = R[1];
-Obj v__3513064_37 = R[2];
-Obj v__3513065_37 = v__3513407_37;
-R[1] = v__3513065_37;
-R[2] = v__3513064_37;
+Obj v__3513473_37= co->res;
+Obj v__3513129_37 = R[1];
+Obj v__3513130_37 = R[2];
+Obj v__3513131_37 = v__3513473_37;
+R[1] = v__3513131_37;
+R[2] = v__3513130_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513063_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513129_37);
 return;
 }
 }
@@ -2998,36 +2998,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v__3513389_37 = PRIM_CDR(v_rules);
-Obj v__3513390_37 = PRIM_CAR(v__3513389_37);
-Obj v__3513056_37 = v__3513390_37;
-Obj v__3513059_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513056_37);
-R[1] = v__3513056_37;
-R[2] = v__3513059_37;
+Obj v__3513455_37 = PRIM_CDR(v_rules);
+Obj v__3513456_37 = PRIM_CAR(v__3513455_37);
+Obj v__3513122_37 = v__3513456_37;
+Obj v__3513125_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513122_37);
+R[1] = v__3513122_37;
+R[2] = v__3513125_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513056_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513122_37);
 return;
 }
 case 1:
 {
-Obj v__3513398_37= co->res;
-Obj v__3513056_37 = R[1];
-Obj v__3513059_37 = R[2];
-if (True == v__3513398_37) {
-Obj v__3513399_37 = PRIM_CAR(v__3513056_37);
-Obj v__3513400_37 = PRIM_EQ(v__3513399_37, getBinding(co, packageID, 110).name);
-if (True == v__3513400_37) {
+Obj v__3513464_37= co->res;
+Obj v__3513122_37 = R[1];
+Obj v__3513125_37 = R[2];
+if (True == v__3513464_37) {
+Obj v__3513465_37 = PRIM_CAR(v__3513122_37);
+Obj v__3513466_37 = PRIM_EQ(v__3513465_37, getBinding(co, packageID, 110).name);
+if (True == v__3513466_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513059_37, True);
+coraCall1(co, v__3513125_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513059_37, False);
+coraCall1(co, v__3513125_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513059_37, False);
+coraCall1(co, v__3513125_37, False);
 return;
 }
 }
@@ -3038,8 +3038,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513058_37 = R[1];
-if (True == v__3513058_37) {
+Obj v__3513124_37 = R[1];
+if (True == v__3513124_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
 return;
@@ -3050,20 +3050,20 @@ return;
 }
 case 1:
 {
-Obj v__3513392_37= co->res;
-Obj v__3513391_37 = R[1];
-Obj v__3513393_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3513394_37 = makeCons(co->gc, v__3513393_37, Nil);
-Obj v__3513395_37 = makeCons(co->gc, v__3513392_37, v__3513394_37);
-Obj v__3513396_37 = makeCons(co->gc, v__3513391_37, v__3513395_37);
-Obj v__3513397_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513396_37);
-coraReturn(co, v__3513397_37);
+Obj v__3513458_37= co->res;
+Obj v__3513457_37 = R[1];
+Obj v__3513459_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3513460_37 = makeCons(co->gc, v__3513459_37, Nil);
+Obj v__3513461_37 = makeCons(co->gc, v__3513458_37, v__3513460_37);
+Obj v__3513462_37 = makeCons(co->gc, v__3513457_37, v__3513461_37);
+Obj v__3513463_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513462_37);
+coraReturn(co, v__3513463_37);
 return;
 }
 case 2:
 {
-Obj v__3513391_37= co->res;
-R[1] = v__3513391_37;
+Obj v__3513457_37= co->res;
+R[1] = v__3513457_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
 return;
@@ -3089,36 +3089,36 @@ return;
 }
 case 1:
 {
-Obj v__3513387_37= co->res;
+Obj v__3513453_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513387_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513453_37);
 return;
 }
 case 2:
 {
-Obj v__3513374_37= co->res;
+Obj v__3513440_37= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v__3513374_37) {
-Obj v__3513375_37 = PRIM_CAR(v_pat);
-Obj v__3513376_37 = PRIM_EQ(v__3513375_37, getBinding(co, packageID, 139).name);
-if (True == v__3513376_37) {
-Obj v__3513377_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513378_37 = makeCons(co->gc, v_pat, v__3513377_37);
-Obj v__3513379_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513378_37);
-Obj v__3513380_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513381_37 = makeCons(co->gc, v__3513380_37, Nil);
-Obj v__3513382_37 = makeCons(co->gc, v_body, v__3513381_37);
-Obj v__3513383_37 = makeCons(co->gc, v__3513379_37, v__3513382_37);
-Obj v__3513384_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513383_37);
-coraReturn(co, v__3513384_37);
-return;
-} else {
-Obj v__3513385_37 = PRIM_CAR(v_pat);
-Obj v__3513386_37 = PRIM_EQ(v__3513385_37, getBinding(co, packageID, 152).name);
-if (True == v__3513386_37) {
+if (True == v__3513440_37) {
+Obj v__3513441_37 = PRIM_CAR(v_pat);
+Obj v__3513442_37 = PRIM_EQ(v__3513441_37, getBinding(co, packageID, 139).name);
+if (True == v__3513442_37) {
+Obj v__3513443_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513444_37 = makeCons(co->gc, v_pat, v__3513443_37);
+Obj v__3513445_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513444_37);
+Obj v__3513446_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513447_37 = makeCons(co->gc, v__3513446_37, Nil);
+Obj v__3513448_37 = makeCons(co->gc, v_body, v__3513447_37);
+Obj v__3513449_37 = makeCons(co->gc, v__3513445_37, v__3513448_37);
+Obj v__3513450_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513449_37);
+coraReturn(co, v__3513450_37);
+return;
+} else {
+Obj v__3513451_37 = PRIM_CAR(v_pat);
+Obj v__3513452_37 = PRIM_EQ(v__3513451_37, getBinding(co, packageID, 152).name);
+if (True == v__3513452_37) {
 co->ctx.sp = R;
 coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
 return;
@@ -3136,36 +3136,36 @@ return;
 }
 case 3:
 {
-Obj v__3513359_37= co->res;
+Obj v__3513425_37= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v__3513359_37) {
-Obj v__3513360_37 = PRIM_EQ(v_pat, v_expr);
-if (True == v__3513360_37) {
+if (True == v__3513425_37) {
+Obj v__3513426_37 = PRIM_EQ(v_pat, v_expr);
+if (True == v__3513426_37) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v__3513361_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513362_37 = makeCons(co->gc, v_pat, v__3513361_37);
-Obj v__3513363_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513362_37);
-Obj v__3513364_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513365_37 = makeCons(co->gc, v__3513364_37, Nil);
-Obj v__3513366_37 = makeCons(co->gc, v_body, v__3513365_37);
-Obj v__3513367_37 = makeCons(co->gc, v__3513363_37, v__3513366_37);
-Obj v__3513368_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513367_37);
-coraReturn(co, v__3513368_37);
+Obj v__3513427_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513428_37 = makeCons(co->gc, v_pat, v__3513427_37);
+Obj v__3513429_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513428_37);
+Obj v__3513430_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513431_37 = makeCons(co->gc, v__3513430_37, Nil);
+Obj v__3513432_37 = makeCons(co->gc, v_body, v__3513431_37);
+Obj v__3513433_37 = makeCons(co->gc, v__3513429_37, v__3513432_37);
+Obj v__3513434_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513433_37);
+coraReturn(co, v__3513434_37);
 return;
 }
 } else {
-Obj v__3513369_37 = primIsSymbol(v_pat);
-if (True == v__3513369_37) {
-Obj v__3513370_37 = makeCons(co->gc, v_body, Nil);
-Obj v__3513371_37 = makeCons(co->gc, v_expr, v__3513370_37);
-Obj v__3513372_37 = makeCons(co->gc, v_pat, v__3513371_37);
-Obj v__3513373_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513372_37);
-coraReturn(co, v__3513373_37);
+Obj v__3513435_37 = primIsSymbol(v_pat);
+if (True == v__3513435_37) {
+Obj v__3513436_37 = makeCons(co->gc, v_body, Nil);
+Obj v__3513437_37 = makeCons(co->gc, v_expr, v__3513436_37);
+Obj v__3513438_37 = makeCons(co->gc, v_pat, v__3513437_37);
+Obj v__3513439_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513438_37);
+coraReturn(co, v__3513439_37);
 return;
 } else {
 R[1] = v_expr;
@@ -3193,12 +3193,12 @@ return;
 }
 case 1:
 {
-Obj v__3513356_37= co->res;
+Obj v__3513422_37= co->res;
 Obj v_x = R[1];
-if (True == v__3513356_37) {
-Obj v__3513357_37 = primIsSymbol(v_x);
-Obj v__3513358_37 = primNot(v__3513357_37);
-if (True == v__3513358_37) {
+if (True == v__3513422_37) {
+Obj v__3513423_37 = primIsSymbol(v_x);
+Obj v__3513424_37 = primNot(v__3513423_37);
+if (True == v__3513424_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3231,41 +3231,41 @@ return;
 }
 case 1:
 {
-Obj v__3513335_37= co->res;
-Obj v__3513049_37 = R[1];
+Obj v__3513401_37= co->res;
+Obj v__3513115_37 = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v__3513050_37 = v__3513335_37;
-Obj v__3513053_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513049_37, v__3513050_37, v_expr, v_body, v_cc);
-Obj v__3513352_37 = PRIM_ISCONS(v_expr);
-if (True == v__3513352_37) {
-Obj v__3513353_37 = PRIM_CAR(v_expr);
-Obj v__3513354_37 = PRIM_EQ(v__3513353_37, getBinding(co, packageID, 152).name);
-if (True == v__3513354_37) {
+Obj v__3513116_37 = v__3513401_37;
+Obj v__3513119_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513115_37, v__3513116_37, v_expr, v_body, v_cc);
+Obj v__3513418_37 = PRIM_ISCONS(v_expr);
+if (True == v__3513418_37) {
+Obj v__3513419_37 = PRIM_CAR(v_expr);
+Obj v__3513420_37 = PRIM_EQ(v__3513419_37, getBinding(co, packageID, 152).name);
+if (True == v__3513420_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513053_37, True);
+coraCall1(co, v__3513119_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513053_37, False);
+coraCall1(co, v__3513119_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513053_37, False);
+coraCall1(co, v__3513119_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513334_37= co->res;
+Obj v__3513400_37= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v__3513049_37 = v__3513334_37;
-R[1] = v__3513049_37;
+Obj v__3513115_37 = v__3513400_37;
+R[1] = v__3513115_37;
 R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
@@ -3280,72 +3280,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513052_37 = R[1];
-if (True == v__3513052_37) {
+Obj v__3513118_37 = R[1];
+if (True == v__3513118_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3513339_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513340_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513339_37);
-Obj v__3513341_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513342_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513341_37);
-Obj v__3513343_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513344_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513343_37);
-R[1] = v__3513342_37;
-R[2] = v__3513340_37;
+Obj v__3513405_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513406_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513405_37);
+Obj v__3513407_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513408_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513407_37);
+Obj v__3513409_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513410_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513409_37);
+R[1] = v__3513408_37;
+R[2] = v__3513406_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513344_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513410_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3513338_37= co->res;
-Obj v__3513054_37 = R[1];
+Obj v__3513404_37= co->res;
+Obj v__3513120_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513054_37, v__3513338_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513120_37, v__3513404_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3513337_37= co->res;
-Obj v__3513054_37 = R[1];
-Obj v__3513055_37 = v__3513337_37;
-R[1] = v__3513054_37;
+Obj v__3513403_37= co->res;
+Obj v__3513120_37 = R[1];
+Obj v__3513121_37 = v__3513403_37;
+R[1] = v__3513120_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513055_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513121_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3513336_37= co->res;
-Obj v__3513054_37 = v__3513336_37;
-R[1] = v__3513054_37;
+Obj v__3513402_37= co->res;
+Obj v__3513120_37 = v__3513402_37;
+R[1] = v__3513120_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3513346_37= co->res;
-Obj v__3513340_37 = R[1];
-Obj v__3513347_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3513348_37 = makeCons(co->gc, v__3513347_37, Nil);
-Obj v__3513349_37 = makeCons(co->gc, v__3513346_37, v__3513348_37);
-Obj v__3513350_37 = makeCons(co->gc, v__3513340_37, v__3513349_37);
-Obj v__3513351_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513350_37);
-coraReturn(co, v__3513351_37);
+Obj v__3513412_37= co->res;
+Obj v__3513406_37 = R[1];
+Obj v__3513413_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3513414_37 = makeCons(co->gc, v__3513413_37, Nil);
+Obj v__3513415_37 = makeCons(co->gc, v__3513412_37, v__3513414_37);
+Obj v__3513416_37 = makeCons(co->gc, v__3513406_37, v__3513415_37);
+Obj v__3513417_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513416_37);
+coraReturn(co, v__3513417_37);
 return;
 }
 case 5:
 {
-Obj v__3513345_37= co->res;
-Obj v__3513342_37 = R[1];
-Obj v__3513340_37 = R[2];
-R[1] = v__3513340_37;
+Obj v__3513411_37= co->res;
+Obj v__3513408_37 = R[1];
+Obj v__3513406_37 = R[2];
+R[1] = v__3513406_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513342_37, v__3513345_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513408_37, v__3513411_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3356,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513332_37 = PRIM_CDR(v_exp);
+Obj v__3513398_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513332_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513398_37);
 return;
 }
 }
@@ -3369,36 +3369,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v__3513322_37 = PRIM_CDR(v_pat);
+Obj v__3513388_37 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513322_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513388_37);
 return;
 }
 case 1:
 {
-Obj v__3513327_37= co->res;
-Obj v__3513325_37 = R[1];
-Obj v__3513328_37 = makeCons(co->gc, v__3513327_37, Nil);
-Obj v__3513329_37 = makeCons(co->gc, v__3513325_37, v__3513328_37);
-Obj v__3513330_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513329_37);
-coraReturn(co, v__3513330_37);
+Obj v__3513393_37= co->res;
+Obj v__3513391_37 = R[1];
+Obj v__3513394_37 = makeCons(co->gc, v__3513393_37, Nil);
+Obj v__3513395_37 = makeCons(co->gc, v__3513391_37, v__3513394_37);
+Obj v__3513396_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513395_37);
+coraReturn(co, v__3513396_37);
 return;
 }
 case 2:
 {
-Obj v__3513323_37= co->res;
+Obj v__3513389_37= co->res;
 Obj v_pat = R[1];
-if (True == v__3513323_37) {
-Obj v__3513324_37 = PRIM_CAR(v_pat);
-coraReturn(co, v__3513324_37);
+if (True == v__3513389_37) {
+Obj v__3513390_37 = PRIM_CAR(v_pat);
+coraReturn(co, v__3513390_37);
 return;
 } else {
-Obj v__3513325_37 = PRIM_CAR(v_pat);
-Obj v__3513326_37 = PRIM_CDR(v_pat);
-R[1] = v__3513325_37;
+Obj v__3513391_37 = PRIM_CAR(v_pat);
+Obj v__3513392_37 = PRIM_CDR(v_pat);
+R[1] = v__3513391_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513326_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513392_37);
 return;
 }
 }
@@ -3410,13 +3410,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513319_37 = PRIM_EQ(v_x, True);
-if (True == v__3513319_37) {
+Obj v__3513385_37 = PRIM_EQ(v_x, True);
+if (True == v__3513385_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513320_37 = PRIM_EQ(v_x, False);
-if (True == v__3513320_37) {
+Obj v__3513386_37 = PRIM_EQ(v_x, False);
+if (True == v__3513386_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3433,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513317_37 = PRIM_CDR(v_exp);
+Obj v__3513383_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513317_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513383_37);
 return;
 }
 }
@@ -3446,41 +3446,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v__3513305_37 = PRIM_EQ(Nil, v_l);
-if (True == v__3513305_37) {
+Obj v__3513371_37 = PRIM_EQ(Nil, v_l);
+if (True == v__3513371_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513306_37 = PRIM_CAR(v_l);
-Obj v__3513307_37 = PRIM_EQ(v__3513306_37, False);
-if (True == v__3513307_37) {
+Obj v__3513372_37 = PRIM_CAR(v_l);
+Obj v__3513373_37 = PRIM_EQ(v__3513372_37, False);
+if (True == v__3513373_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513308_37 = PRIM_CDR(v_l);
+Obj v__3513374_37 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513308_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513374_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513309_37= co->res;
+Obj v__3513375_37= co->res;
 Obj v_l = R[1];
-Obj v__3513048_37 = v__3513309_37;
-Obj v__3513310_37 = PRIM_EQ(v__3513048_37, False);
-if (True == v__3513310_37) {
+Obj v__3513114_37 = v__3513375_37;
+Obj v__3513376_37 = PRIM_EQ(v__3513114_37, False);
+if (True == v__3513376_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513311_37 = PRIM_CAR(v_l);
-Obj v__3513312_37 = makeCons(co->gc, False, Nil);
-Obj v__3513313_37 = makeCons(co->gc, v__3513048_37, v__3513312_37);
-Obj v__3513314_37 = makeCons(co->gc, v__3513311_37, v__3513313_37);
-Obj v__3513315_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513314_37);
-coraReturn(co, v__3513315_37);
+Obj v__3513377_37 = PRIM_CAR(v_l);
+Obj v__3513378_37 = makeCons(co->gc, False, Nil);
+Obj v__3513379_37 = makeCons(co->gc, v__3513114_37, v__3513378_37);
+Obj v__3513380_37 = makeCons(co->gc, v__3513377_37, v__3513379_37);
+Obj v__3513381_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513380_37);
+coraReturn(co, v__3513381_37);
 return;
 }
 }
@@ -3492,9 +3492,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513303_37 = PRIM_CDR(v_exp);
+Obj v__3513369_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513303_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513369_37);
 return;
 }
 }
@@ -3505,41 +3505,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v__3513291_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513291_37) {
+Obj v__3513357_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513357_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513292_37 = PRIM_CAR(v_l);
-Obj v__3513293_37 = PRIM_EQ(v__3513292_37, True);
-if (True == v__3513293_37) {
+Obj v__3513358_37 = PRIM_CAR(v_l);
+Obj v__3513359_37 = PRIM_EQ(v__3513358_37, True);
+if (True == v__3513359_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513294_37 = PRIM_CDR(v_l);
+Obj v__3513360_37 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513294_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513360_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513295_37= co->res;
+Obj v__3513361_37= co->res;
 Obj v_l = R[1];
-Obj v__3513047_37 = v__3513295_37;
-Obj v__3513296_37 = PRIM_EQ(v__3513047_37, True);
-if (True == v__3513296_37) {
+Obj v__3513113_37 = v__3513361_37;
+Obj v__3513362_37 = PRIM_EQ(v__3513113_37, True);
+if (True == v__3513362_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513297_37 = PRIM_CAR(v_l);
-Obj v__3513298_37 = makeCons(co->gc, v__3513047_37, Nil);
-Obj v__3513299_37 = makeCons(co->gc, True, v__3513298_37);
-Obj v__3513300_37 = makeCons(co->gc, v__3513297_37, v__3513299_37);
-Obj v__3513301_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513300_37);
-coraReturn(co, v__3513301_37);
+Obj v__3513363_37 = PRIM_CAR(v_l);
+Obj v__3513364_37 = makeCons(co->gc, v__3513113_37, Nil);
+Obj v__3513365_37 = makeCons(co->gc, True, v__3513364_37);
+Obj v__3513366_37 = makeCons(co->gc, v__3513363_37, v__3513365_37);
+Obj v__3513367_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513366_37);
+coraReturn(co, v__3513367_37);
 return;
 }
 }
@@ -3551,12 +3551,12 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513277_37 = PRIM_CDR(v_exp);
-Obj v__3513278_37 = PRIM_EQ(Nil, v__3513277_37);
-if (True == v__3513278_37) {
-Obj v__3513279_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3513280_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513279_37);
-coraReturn(co, v__3513280_37);
+Obj v__3513343_37 = PRIM_CDR(v_exp);
+Obj v__3513344_37 = PRIM_EQ(Nil, v__3513343_37);
+if (True == v__3513344_37) {
+Obj v__3513345_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3513346_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513345_37);
+coraReturn(co, v__3513346_37);
 return;
 } else {
 R[1] = v_exp;
@@ -3567,38 +3567,38 @@ return;
 }
 case 1:
 {
-Obj v__3513284_37= co->res;
-Obj v__3513283_37 = R[1];
-Obj v__3513282_37 = R[2];
-Obj v__3513285_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513284_37);
-Obj v__3513286_37 = makeCons(co->gc, v__3513285_37, Nil);
-Obj v__3513287_37 = makeCons(co->gc, v__3513283_37, v__3513286_37);
-Obj v__3513288_37 = makeCons(co->gc, v__3513282_37, v__3513287_37);
-Obj v__3513289_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513288_37);
-coraReturn(co, v__3513289_37);
+Obj v__3513350_37= co->res;
+Obj v__3513349_37 = R[1];
+Obj v__3513348_37 = R[2];
+Obj v__3513351_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513350_37);
+Obj v__3513352_37 = makeCons(co->gc, v__3513351_37, Nil);
+Obj v__3513353_37 = makeCons(co->gc, v__3513349_37, v__3513352_37);
+Obj v__3513354_37 = makeCons(co->gc, v__3513348_37, v__3513353_37);
+Obj v__3513355_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513354_37);
+coraReturn(co, v__3513355_37);
 return;
 }
 case 2:
 {
-Obj v__3513283_37= co->res;
+Obj v__3513349_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513282_37 = R[2];
-R[1] = v__3513283_37;
-R[2] = v__3513282_37;
+Obj v__3513348_37 = R[2];
+R[1] = v__3513349_37;
+R[2] = v__3513348_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513281_37= co->res;
+Obj v__3513347_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513046_37 = v__3513281_37;
-Obj v__3513282_37 = PRIM_CAR(v__3513046_37);
+Obj v__3513112_37 = v__3513347_37;
+Obj v__3513348_37 = PRIM_CAR(v__3513112_37);
 R[1] = v_exp;
-R[2] = v__3513282_37;
+R[2] = v__3513348_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513046_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513112_37);
 return;
 }
 }
@@ -3609,9 +3609,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513275_37 = PRIM_CDR(v_exp);
+Obj v__3513341_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513275_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513341_37);
 return;
 }
 }
@@ -3622,58 +3622,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513263_37 = PRIM_CDR(v_exp);
+Obj v__3513329_37 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513263_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513329_37);
 return;
 }
 case 1:
 {
-Obj v__3513269_37= co->res;
-Obj v__3513267_37 = R[1];
-Obj v__3513266_37 = R[2];
-Obj v__3513270_37 = makeCons(co->gc, v__3513269_37, Nil);
-Obj v__3513271_37 = makeCons(co->gc, v__3513267_37, v__3513270_37);
-Obj v__3513272_37 = makeCons(co->gc, v__3513266_37, v__3513271_37);
-Obj v__3513273_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513272_37);
-coraReturn(co, v__3513273_37);
+Obj v__3513335_37= co->res;
+Obj v__3513333_37 = R[1];
+Obj v__3513332_37 = R[2];
+Obj v__3513336_37 = makeCons(co->gc, v__3513335_37, Nil);
+Obj v__3513337_37 = makeCons(co->gc, v__3513333_37, v__3513336_37);
+Obj v__3513338_37 = makeCons(co->gc, v__3513332_37, v__3513337_37);
+Obj v__3513339_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513338_37);
+coraReturn(co, v__3513339_37);
 return;
 }
 case 2:
 {
-Obj v__3513268_37= co->res;
-Obj v__3513267_37 = R[1];
-Obj v__3513266_37 = R[2];
-R[1] = v__3513267_37;
-R[2] = v__3513266_37;
+Obj v__3513334_37= co->res;
+Obj v__3513333_37 = R[1];
+Obj v__3513332_37 = R[2];
+R[1] = v__3513333_37;
+R[2] = v__3513332_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513268_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513334_37);
 return;
 }
 case 3:
 {
-Obj v__3513267_37= co->res;
+Obj v__3513333_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513266_37 = R[2];
-R[1] = v__3513267_37;
-R[2] = v__3513266_37;
+Obj v__3513332_37 = R[2];
+R[1] = v__3513333_37;
+R[2] = v__3513332_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v__3513264_37= co->res;
+Obj v__3513330_37= co->res;
 Obj v_exp = R[1];
-if (True == v__3513264_37) {
-Obj v__3513265_37 = PRIM_CAR(v_exp);
-coraReturn(co, v__3513265_37);
+if (True == v__3513330_37) {
+Obj v__3513331_37 = PRIM_CAR(v_exp);
+coraReturn(co, v__3513331_37);
 return;
 } else {
-Obj v__3513266_37 = PRIM_CAR(v_exp);
+Obj v__3513332_37 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v__3513266_37;
+R[2] = v__3513332_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
@@ -3687,9 +3687,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513260_37 = PRIM_ISCONS(v_x);
-Obj v__3513261_37 = primNot(v__3513260_37);
-coraReturn(co, v__3513261_37);
+Obj v__3513326_37 = PRIM_ISCONS(v_x);
+Obj v__3513327_37 = primNot(v__3513326_37);
+coraReturn(co, v__3513327_37);
 return;
 }
 }
@@ -3701,17 +3701,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v__3513255_37 = PRIM_ISCONS(v_l);
-if (True == v__3513255_37) {
-Obj v__3513256_37 = PRIM_CAR(v_l);
-Obj v__3513257_37 = PRIM_EQ(v__3513256_37, v_x);
-if (True == v__3513257_37) {
+Obj v__3513321_37 = PRIM_ISCONS(v_l);
+if (True == v__3513321_37) {
+Obj v__3513322_37 = PRIM_CAR(v_l);
+Obj v__3513323_37 = PRIM_EQ(v__3513322_37, v_x);
+if (True == v__3513323_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513258_37 = PRIM_CDR(v_l);
+Obj v__3513324_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513258_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513324_37);
 return;
 }
 } else {
@@ -3734,35 +3734,35 @@ return;
 }
 case 1:
 {
-Obj v__3513247_37= co->res;
-Obj v__3513246_37 = R[1];
-Obj v__3513245_37 = R[2];
-Obj v__3513248_37 = makeCons(co->gc, v__3513247_37, Nil);
-Obj v__3513249_37 = makeCons(co->gc, v__3513246_37, v__3513248_37);
-Obj v__3513250_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513249_37);
-Obj v__3513251_37 = makeCons(co->gc, v__3513250_37, Nil);
-Obj v__3513252_37 = makeCons(co->gc, v__3513245_37, v__3513251_37);
-Obj v__3513253_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513252_37);
-coraReturn(co, v__3513253_37);
+Obj v__3513313_37= co->res;
+Obj v__3513312_37 = R[1];
+Obj v__3513311_37 = R[2];
+Obj v__3513314_37 = makeCons(co->gc, v__3513313_37, Nil);
+Obj v__3513315_37 = makeCons(co->gc, v__3513312_37, v__3513314_37);
+Obj v__3513316_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513315_37);
+Obj v__3513317_37 = makeCons(co->gc, v__3513316_37, Nil);
+Obj v__3513318_37 = makeCons(co->gc, v__3513311_37, v__3513317_37);
+Obj v__3513319_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513318_37);
+coraReturn(co, v__3513319_37);
 return;
 }
 case 2:
 {
-Obj v__3513246_37= co->res;
+Obj v__3513312_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513245_37 = R[2];
-R[1] = v__3513246_37;
-R[2] = v__3513245_37;
+Obj v__3513311_37 = R[2];
+R[1] = v__3513312_37;
+R[2] = v__3513311_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513245_37= co->res;
+Obj v__3513311_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v__3513245_37;
+R[2] = v__3513311_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3775,9 +3775,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513243_37 = PRIM_CDR(v_exp);
+Obj v__3513309_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513243_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513309_37);
 return;
 }
 }
@@ -3795,36 +3795,36 @@ return;
 }
 case 1:
 {
-Obj v__3513235_37= co->res;
-Obj v__3513234_37 = R[1];
-Obj v__3513233_37 = R[2];
-Obj v__3513236_37 = makeCons(co->gc, v__3513234_37, v__3513235_37);
-Obj v__3513237_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513236_37);
-Obj v__3513238_37 = makeCons(co->gc, v__3513237_37, Nil);
-Obj v__3513239_37 = makeCons(co->gc, v__3513233_37, v__3513238_37);
-Obj v__3513240_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513239_37);
-coraReturn(co, v__3513240_37);
+Obj v__3513301_37= co->res;
+Obj v__3513300_37 = R[1];
+Obj v__3513299_37 = R[2];
+Obj v__3513302_37 = makeCons(co->gc, v__3513300_37, v__3513301_37);
+Obj v__3513303_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513302_37);
+Obj v__3513304_37 = makeCons(co->gc, v__3513303_37, Nil);
+Obj v__3513305_37 = makeCons(co->gc, v__3513299_37, v__3513304_37);
+Obj v__3513306_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513305_37);
+coraReturn(co, v__3513306_37);
 return;
 }
 case 2:
 {
-Obj v__3513234_37= co->res;
+Obj v__3513300_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513233_37 = R[2];
-R[1] = v__3513234_37;
-R[2] = v__3513233_37;
+Obj v__3513299_37 = R[2];
+R[1] = v__3513300_37;
+R[2] = v__3513299_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513231_37= co->res;
+Obj v__3513297_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513232_37 = makeCons(co->gc, v__3513231_37, Nil);
-Obj v__3513233_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513232_37);
+Obj v__3513298_37 = makeCons(co->gc, v__3513297_37, Nil);
+Obj v__3513299_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513298_37);
 R[1] = v_exp;
-R[2] = v__3513233_37;
+R[2] = v__3513299_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
@@ -3837,26 +3837,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513213_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513213_37) {
-Obj v__3513214_37 = PRIM_CAR(v_exp);
-Obj v__3513215_37 = PRIM_EQ(v__3513214_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v__3513215_37) {
-Obj v__3513216_37 = PRIM_CDR(v_exp);
-coraReturn(co, v__3513216_37);
-return;
-} else {
-Obj v__3513217_37 = PRIM_CAR(v_exp);
-Obj v__3513218_37 = PRIM_EQ(v__3513217_37, getBinding(co, packageID, 140).name);
-if (True == v__3513218_37) {
+Obj v__3513279_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513279_37) {
+Obj v__3513280_37 = PRIM_CAR(v_exp);
+Obj v__3513281_37 = PRIM_EQ(v__3513280_37, globalRef(co, getBinding(co, packageID, 145)));
+if (True == v__3513281_37) {
+Obj v__3513282_37 = PRIM_CDR(v_exp);
+coraReturn(co, v__3513282_37);
+return;
+} else {
+Obj v__3513283_37 = PRIM_CAR(v_exp);
+Obj v__3513284_37 = PRIM_EQ(v__3513283_37, getBinding(co, packageID, 140).name);
+if (True == v__3513284_37) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
 return;
 } else {
-Obj v__3513225_37 = PRIM_CAR(v_exp);
-Obj v__3513226_37 = PRIM_EQ(v__3513225_37, getBinding(co, packageID, 139).name);
-if (True == v__3513226_37) {
+Obj v__3513291_37 = PRIM_CAR(v_exp);
+Obj v__3513292_37 = PRIM_EQ(v__3513291_37, getBinding(co, packageID, 139).name);
+if (True == v__3513292_37) {
 coraReturn(co, v_exp);
 return;
 } else {
@@ -3874,38 +3874,38 @@ return;
 }
 case 1:
 {
-Obj v__3513221_37= co->res;
-Obj v__3513219_37 = R[1];
-Obj v__3513222_37 = makeCons(co->gc, v__3513221_37, Nil);
-Obj v__3513223_37 = makeCons(co->gc, v__3513219_37, v__3513222_37);
-Obj v__3513224_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513223_37);
-coraReturn(co, v__3513224_37);
+Obj v__3513287_37= co->res;
+Obj v__3513285_37 = R[1];
+Obj v__3513288_37 = makeCons(co->gc, v__3513287_37, Nil);
+Obj v__3513289_37 = makeCons(co->gc, v__3513285_37, v__3513288_37);
+Obj v__3513290_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513289_37);
+coraReturn(co, v__3513290_37);
 return;
 }
 case 2:
 {
-Obj v__3513220_37= co->res;
-Obj v__3513219_37 = R[1];
-R[1] = v__3513219_37;
+Obj v__3513286_37= co->res;
+Obj v__3513285_37 = R[1];
+R[1] = v__3513285_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513220_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513286_37);
 return;
 }
 case 3:
 {
-Obj v__3513219_37= co->res;
+Obj v__3513285_37= co->res;
 Obj v_exp = R[1];
-R[1] = v__3513219_37;
+R[1] = v__3513285_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 4:
 {
-Obj v__3513228_37= co->res;
+Obj v__3513294_37= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513228_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513294_37);
 return;
 }
 }
@@ -3916,8 +3916,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v__3513227_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v__3513227_37) {
+Obj v__3513293_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v__3513293_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
 return;
@@ -3948,14 +3948,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v__3513203_37 = PRIM_EQ(Nil, v_macros);
-if (True == v__3513203_37) {
+Obj v__3513269_37 = PRIM_EQ(Nil, v_macros);
+if (True == v__3513269_37) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v__3513210_37 = PRIM_CAR(v_macros);
+Obj v__3513276_37 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513210_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513276_37);
 return;
 }
 }
@@ -3967,24 +3967,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v__3513045_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3513206_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513206_37) {
-Obj v__3513207_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513208_37 = PRIM_CAR(v_item);
-Obj v__3513209_37 = PRIM_EQ(v__3513207_37, v__3513208_37);
-if (True == v__3513209_37) {
+Obj v__3513111_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3513272_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513272_37) {
+Obj v__3513273_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513274_37 = PRIM_CAR(v_item);
+Obj v__3513275_37 = PRIM_EQ(v__3513273_37, v__3513274_37);
+if (True == v__3513275_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513045_37, True);
+coraCall1(co, v__3513111_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513045_37, False);
+coraCall1(co, v__3513111_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513045_37, False);
+coraCall1(co, v__3513111_37, False);
 return;
 }
 }
@@ -3995,16 +3995,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513044_37 = R[1];
-if (True == v__3513044_37) {
-Obj v__3513204_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513110_37 = R[1];
+if (True == v__3513110_37) {
+Obj v__3513270_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3513204_37, closureRef(R[0], 1));
+coraCall1(co, v__3513270_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513205_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513271_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513205_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513271_37);
 return;
 }
 }
@@ -4017,10 +4017,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v__3513199_37 = makeCons(co->gc, v_n, v_v);
-Obj v__3513200_37 = makeCons(co->gc, v__3513199_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj v__3513201_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513200_37);
-coraReturn(co, v__3513201_37);
+Obj v__3513265_37 = makeCons(co->gc, v_n, v_v);
+Obj v__3513266_37 = makeCons(co->gc, v__3513265_37, globalRef(co, getBinding(co, packageID, 146)));
+Obj v__3513267_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513266_37);
+coraReturn(co, v__3513267_37);
 return;
 }
 }
@@ -4046,14 +4046,14 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v__3513189_37 = PRIM_ISCONS(v_l);
-if (True == v__3513189_37) {
-Obj v__3513190_37 = PRIM_CAR(v_l);
+Obj v__3513255_37 = PRIM_ISCONS(v_l);
+if (True == v__3513255_37) {
+Obj v__3513256_37 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v__3513190_37);
+coraCall1(co, v_f, v__3513256_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4063,14 +4063,14 @@ return;
 }
 case 1:
 {
-Obj v__3513191_37= co->res;
+Obj v__3513257_37= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v__3513192_37 = makeCons(co->gc, v__3513191_37, v_res);
-Obj v__3513193_37 = PRIM_CDR(v_l);
+Obj v__3513258_37 = makeCons(co->gc, v__3513257_37, v_res);
+Obj v__3513259_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513192_37, v_f, v__3513193_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513258_37, v_f, v__3513259_37);
 return;
 }
 }
@@ -4082,13 +4082,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v__3513182_37 = PRIM_ISCONS(v_l);
-if (True == v__3513182_37) {
-Obj v__3513183_37 = PRIM_CAR(v_l);
-Obj v__3513184_37 = makeCons(co->gc, v__3513183_37, v_res);
-Obj v__3513185_37 = PRIM_CDR(v_l);
+Obj v__3513248_37 = PRIM_ISCONS(v_l);
+if (True == v__3513248_37) {
+Obj v__3513249_37 = PRIM_CAR(v_l);
+Obj v__3513250_37 = makeCons(co->gc, v__3513249_37, v_res);
+Obj v__3513251_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513184_37, v__3513185_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513250_37, v__3513251_37);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4103,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513180_37 = PRIM_ISCONS(v_x);
-coraReturn(co, v__3513180_37);
+Obj v__3513246_37 = PRIM_ISCONS(v_x);
+coraReturn(co, v__3513246_37);
 return;
 }
 }
@@ -4115,13 +4115,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513172_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513172_37) {
-Obj v__3513173_37 = PRIM_CAR(v_exp);
-Obj v__3513174_37 = PRIM_CDR(v_exp);
-R[1] = v__3513173_37;
+Obj v__3513238_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513238_37) {
+Obj v__3513239_37 = PRIM_CAR(v_exp);
+Obj v__3513240_37 = PRIM_CDR(v_exp);
+R[1] = v__3513239_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513240_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4130,12 @@ return;
 }
 case 1:
 {
-Obj v__3513175_37= co->res;
-Obj v__3513173_37 = R[1];
-Obj v__3513176_37 = makeCons(co->gc, v__3513175_37, Nil);
-Obj v__3513177_37 = makeCons(co->gc, v__3513173_37, v__3513176_37);
-Obj v__3513178_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513177_37);
-coraReturn(co, v__3513178_37);
+Obj v__3513241_37= co->res;
+Obj v__3513239_37 = R[1];
+Obj v__3513242_37 = makeCons(co->gc, v__3513241_37, Nil);
+Obj v__3513243_37 = makeCons(co->gc, v__3513239_37, v__3513242_37);
+Obj v__3513244_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513243_37);
+coraReturn(co, v__3513244_37);
 return;
 }
 }
@@ -4146,10 +4146,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513168_37 = PRIM_CDR(v_x);
-Obj v__3513169_37 = PRIM_CDR(v__3513168_37);
-Obj v__3513170_37 = PRIM_CDR(v__3513169_37);
-coraReturn(co, v__3513170_37);
+Obj v__3513234_37 = PRIM_CDR(v_x);
+Obj v__3513235_37 = PRIM_CDR(v__3513234_37);
+Obj v__3513236_37 = PRIM_CDR(v__3513235_37);
+coraReturn(co, v__3513236_37);
 return;
 }
 }
@@ -4160,11 +4160,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513163_37 = PRIM_CDR(v_x);
-Obj v__3513164_37 = PRIM_CDR(v__3513163_37);
-Obj v__3513165_37 = PRIM_CDR(v__3513164_37);
-Obj v__3513166_37 = PRIM_CAR(v__3513165_37);
-coraReturn(co, v__3513166_37);
+Obj v__3513229_37 = PRIM_CDR(v_x);
+Obj v__3513230_37 = PRIM_CDR(v__3513229_37);
+Obj v__3513231_37 = PRIM_CDR(v__3513230_37);
+Obj v__3513232_37 = PRIM_CAR(v__3513231_37);
+coraReturn(co, v__3513232_37);
 return;
 }
 }
@@ -4175,10 +4175,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513159_37 = PRIM_CDR(v_x);
-Obj v__3513160_37 = PRIM_CDR(v__3513159_37);
-Obj v__3513161_37 = PRIM_CAR(v__3513160_37);
-coraReturn(co, v__3513161_37);
+Obj v__3513225_37 = PRIM_CDR(v_x);
+Obj v__3513226_37 = PRIM_CDR(v__3513225_37);
+Obj v__3513227_37 = PRIM_CAR(v__3513226_37);
+coraReturn(co, v__3513227_37);
 return;
 }
 }
@@ -4189,9 +4189,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513156_37 = PRIM_CDR(v_x);
-Obj v__3513157_37 = PRIM_CDR(v__3513156_37);
-coraReturn(co, v__3513157_37);
+Obj v__3513222_37 = PRIM_CDR(v_x);
+Obj v__3513223_37 = PRIM_CDR(v__3513222_37);
+coraReturn(co, v__3513223_37);
 return;
 }
 }
@@ -4202,9 +4202,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513153_37 = PRIM_CAR(v_x);
-Obj v__3513154_37 = PRIM_CDR(v__3513153_37);
-coraReturn(co, v__3513154_37);
+Obj v__3513219_37 = PRIM_CAR(v_x);
+Obj v__3513220_37 = PRIM_CDR(v__3513219_37);
+coraReturn(co, v__3513220_37);
 return;
 }
 }
@@ -4215,9 +4215,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513150_37 = PRIM_CAR(v_x);
-Obj v__3513151_37 = PRIM_CAR(v__3513150_37);
-coraReturn(co, v__3513151_37);
+Obj v__3513216_37 = PRIM_CAR(v_x);
+Obj v__3513217_37 = PRIM_CAR(v__3513216_37);
+coraReturn(co, v__3513217_37);
 return;
 }
 }
@@ -4228,9 +4228,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513147_37 = PRIM_CDR(v_x);
-Obj v__3513148_37 = PRIM_CAR(v__3513147_37);
-coraReturn(co, v__3513148_37);
+Obj v__3513213_37 = PRIM_CDR(v_x);
+Obj v__3513214_37 = PRIM_CAR(v__3513213_37);
+coraReturn(co, v__3513214_37);
 return;
 }
 }
@@ -4241,8 +4241,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513145_37 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v__3513145_37);
+Obj v__3513211_37 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v__3513211_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index f1dc848..c96d95d 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun146(struct Cora* co, int label, Obj *R);
 static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
 static void clofun143(struct Cora* co, int label, Obj *R);
@@ -286,434 +287,434 @@ __symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
 __symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun145;
+co->ctx.fn = clofun146;
 co->ctx.label = 0;
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun145, 4, R);
+saveCont(co, clofun146, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v__3519102_37= co->res;
-Obj v__3519108_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun111, 2, 0));
-Obj v__3519114_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v__3519136_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun114, 3, 0));
-Obj v__3519160_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun116, 4, 0));
-Obj v__3519172_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun119, 3, 0));
-Obj v__3519213_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun124, 1, 0));
-Obj v__3519252_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun127, 4, 0));
-Obj v__3519304_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun132, 2, 0));
-Obj v__3519305_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj v__3519319_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun141, 1, 0));
-Obj v__3519320_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v__3519333_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun143, 1, 0));
-Obj v__3519343_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun144, 2, 0));
-coraReturn(co, v__3519343_37);
+Obj v__3519186_37= co->res;
+Obj v__3519192_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v__3519198_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3519220_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun115, 3, 0));
+Obj v__3519244_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun117, 4, 0));
+Obj v__3519256_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun120, 3, 0));
+Obj v__3519297_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun125, 1, 0));
+Obj v__3519336_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun128, 4, 0));
+Obj v__3519388_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj v__3519389_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun134, 2, 0));
+Obj v__3519403_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun142, 1, 0));
+Obj v__3519404_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v__3519417_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun144, 1, 0));
+Obj v__3519427_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun145, 2, 0));
+coraReturn(co, v__3519427_37);
 return;
 }
 case 2:
 {
-Obj v__3517714_37= co->res;
-Obj v__3517715_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj v__3517730_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3517736_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3517746_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3517747_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3517754_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3517755_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3517756_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517755_37);
-Obj v__3517757_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517756_37);
-Obj v__3517758_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3517759_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517758_37);
-Obj v__3517760_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517759_37);
-Obj v__3517761_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3517762_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517761_37);
-Obj v__3517763_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517762_37);
-Obj v__3517764_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3517765_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517764_37);
-Obj v__3517766_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517765_37);
-Obj v__3517767_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3517768_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517767_37);
-Obj v__3517769_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517768_37);
-Obj v__3517770_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3517771_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517770_37);
-Obj v__3517772_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517771_37);
-Obj v__3517773_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3517774_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517773_37);
-Obj v__3517775_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517774_37);
-Obj v__3517776_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3517777_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517776_37);
-Obj v__3517778_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517777_37);
-Obj v__3517779_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3517780_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517779_37);
-Obj v__3517781_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517780_37);
-Obj v__3517782_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3517783_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517782_37);
-Obj v__3517784_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517783_37);
-Obj v__3517785_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3517786_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517785_37);
-Obj v__3517787_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517786_37);
-Obj v__3517788_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3517789_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517788_37);
-Obj v__3517790_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517789_37);
-Obj v__3517791_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3517792_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517791_37);
-Obj v__3517793_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517792_37);
-Obj v__3517794_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3517795_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517794_37);
-Obj v__3517796_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517795_37);
-Obj v__3517797_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3517798_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517797_37);
-Obj v__3517799_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517798_37);
-Obj v__3517800_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3517801_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517800_37);
-Obj v__3517802_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3517801_37);
-Obj v__3517803_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3517804_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517803_37);
-Obj v__3517805_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3517804_37);
-Obj v__3517806_37 = makeCons(co->gc, v__3517805_37, Nil);
-Obj v__3517807_37 = makeCons(co->gc, v__3517802_37, v__3517806_37);
-Obj v__3517808_37 = makeCons(co->gc, v__3517799_37, v__3517807_37);
-Obj v__3517809_37 = makeCons(co->gc, v__3517796_37, v__3517808_37);
-Obj v__3517810_37 = makeCons(co->gc, v__3517793_37, v__3517809_37);
-Obj v__3517811_37 = makeCons(co->gc, v__3517790_37, v__3517810_37);
-Obj v__3517812_37 = makeCons(co->gc, v__3517787_37, v__3517811_37);
-Obj v__3517813_37 = makeCons(co->gc, v__3517784_37, v__3517812_37);
-Obj v__3517814_37 = makeCons(co->gc, v__3517781_37, v__3517813_37);
-Obj v__3517815_37 = makeCons(co->gc, v__3517778_37, v__3517814_37);
-Obj v__3517816_37 = makeCons(co->gc, v__3517775_37, v__3517815_37);
-Obj v__3517817_37 = makeCons(co->gc, v__3517772_37, v__3517816_37);
-Obj v__3517818_37 = makeCons(co->gc, v__3517769_37, v__3517817_37);
-Obj v__3517819_37 = makeCons(co->gc, v__3517766_37, v__3517818_37);
-Obj v__3517820_37 = makeCons(co->gc, v__3517763_37, v__3517819_37);
-Obj v__3517821_37 = makeCons(co->gc, v__3517760_37, v__3517820_37);
-Obj v__3517822_37 = makeCons(co->gc, v__3517757_37, v__3517821_37);
-Obj v__3517823_37 = primSet(co, getBinding(co, packageID, 122).name, v__3517822_37);
-Obj v__3517827_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3517830_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3517833_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3517838_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3518038_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun21, 3, 0));
-Obj v__3518049_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun23, 2, 0));
-Obj v__3518060_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun25, 2, 0));
-Obj v__3518121_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3518296_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun42, 1, 0));
-Obj v__3518369_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun45, 2, 0));
-Obj v__3518372_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun46, 1, 0));
-Obj v__3518509_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3518532_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj v__3518609_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun62, 2, 0));
-Obj v__3518640_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun66, 3, 0));
-Obj v__3518646_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun69, 4, 0));
-Obj v__3518651_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun71, 2, 0));
-Obj v__3518660_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun73, 1, 0));
-Obj v__3518711_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun75, 2, 0));
-Obj v__3518719_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun76, 2, 0));
-Obj v__3518726_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun77, 2, 0));
-Obj v__3518731_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj v__3518737_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun79, 3, 0));
-Obj v__3518738_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v__3518745_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun82, 5, 0));
-Obj v__3518752_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj v__3519039_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun97, 5, 0));
-Obj v__3519053_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj v__3519075_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun101, 5, 0));
-Obj v__3519077_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun102, 2, 0));
-Obj v__3519081_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v__3519082_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v__3519083_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun105, 1, 0));
-Obj v__3519084_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v__3519085_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v__3519092_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun108, 1, 0));
-Obj v__3519099_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun109, 2, 0));
-saveCont(co, clofun145, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun110, 1, 0));
+Obj v__3517783_37= co->res;
+Obj v__3517784_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj v__3517799_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3517805_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3517815_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3517816_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3517823_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3517824_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3517825_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517824_37);
+Obj v__3517826_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517825_37);
+Obj v__3517827_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3517828_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517827_37);
+Obj v__3517829_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517828_37);
+Obj v__3517830_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3517831_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517830_37);
+Obj v__3517832_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517831_37);
+Obj v__3517833_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3517834_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517833_37);
+Obj v__3517835_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517834_37);
+Obj v__3517836_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3517837_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517836_37);
+Obj v__3517838_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517837_37);
+Obj v__3517839_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3517840_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517839_37);
+Obj v__3517841_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517840_37);
+Obj v__3517842_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3517843_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517842_37);
+Obj v__3517844_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517843_37);
+Obj v__3517845_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3517846_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517845_37);
+Obj v__3517847_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517846_37);
+Obj v__3517848_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3517849_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517848_37);
+Obj v__3517850_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517849_37);
+Obj v__3517851_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3517852_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517851_37);
+Obj v__3517853_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517852_37);
+Obj v__3517854_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3517855_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517854_37);
+Obj v__3517856_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517855_37);
+Obj v__3517857_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3517858_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517857_37);
+Obj v__3517859_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517858_37);
+Obj v__3517860_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3517861_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517860_37);
+Obj v__3517862_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517861_37);
+Obj v__3517863_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3517864_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517863_37);
+Obj v__3517865_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517864_37);
+Obj v__3517866_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3517867_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517866_37);
+Obj v__3517868_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517867_37);
+Obj v__3517869_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3517870_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517869_37);
+Obj v__3517871_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3517870_37);
+Obj v__3517872_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3517873_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517872_37);
+Obj v__3517874_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3517873_37);
+Obj v__3517875_37 = makeCons(co->gc, v__3517874_37, Nil);
+Obj v__3517876_37 = makeCons(co->gc, v__3517871_37, v__3517875_37);
+Obj v__3517877_37 = makeCons(co->gc, v__3517868_37, v__3517876_37);
+Obj v__3517878_37 = makeCons(co->gc, v__3517865_37, v__3517877_37);
+Obj v__3517879_37 = makeCons(co->gc, v__3517862_37, v__3517878_37);
+Obj v__3517880_37 = makeCons(co->gc, v__3517859_37, v__3517879_37);
+Obj v__3517881_37 = makeCons(co->gc, v__3517856_37, v__3517880_37);
+Obj v__3517882_37 = makeCons(co->gc, v__3517853_37, v__3517881_37);
+Obj v__3517883_37 = makeCons(co->gc, v__3517850_37, v__3517882_37);
+Obj v__3517884_37 = makeCons(co->gc, v__3517847_37, v__3517883_37);
+Obj v__3517885_37 = makeCons(co->gc, v__3517844_37, v__3517884_37);
+Obj v__3517886_37 = makeCons(co->gc, v__3517841_37, v__3517885_37);
+Obj v__3517887_37 = makeCons(co->gc, v__3517838_37, v__3517886_37);
+Obj v__3517888_37 = makeCons(co->gc, v__3517835_37, v__3517887_37);
+Obj v__3517889_37 = makeCons(co->gc, v__3517832_37, v__3517888_37);
+Obj v__3517890_37 = makeCons(co->gc, v__3517829_37, v__3517889_37);
+Obj v__3517891_37 = makeCons(co->gc, v__3517826_37, v__3517890_37);
+Obj v__3517892_37 = primSet(co, getBinding(co, packageID, 122).name, v__3517891_37);
+Obj v__3517896_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3517899_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3517902_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3517907_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3518122_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun22, 3, 0));
+Obj v__3518133_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj v__3518144_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj v__3518205_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3518380_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun43, 1, 0));
+Obj v__3518453_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun46, 2, 0));
+Obj v__3518456_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun47, 1, 0));
+Obj v__3518593_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3518616_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun59, 3, 0));
+Obj v__3518693_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun63, 2, 0));
+Obj v__3518724_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun67, 3, 0));
+Obj v__3518730_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun70, 4, 0));
+Obj v__3518735_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun72, 2, 0));
+Obj v__3518744_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3518795_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun76, 2, 0));
+Obj v__3518803_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj v__3518810_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun78, 2, 0));
+Obj v__3518815_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj v__3518821_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun80, 3, 0));
+Obj v__3518822_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3518829_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj v__3518836_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj v__3519123_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj v__3519137_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj v__3519159_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun102, 5, 0));
+Obj v__3519161_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v__3519165_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3519166_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj v__3519167_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v__3519168_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3519169_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj v__3519176_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 1, 0));
+Obj v__3519183_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun110, 2, 0));
+saveCont(co, clofun146, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun111, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3517713_37= co->res;
-saveCont(co, clofun145, 2, R);
+Obj v__3517782_37= co->res;
+saveCont(co, clofun146, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3517712_37= co->res;
-saveCont(co, clofun145, 3, R);
+Obj v__3517781_37= co->res;
+saveCont(co, clofun146, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v__3519334_37 = primGenSym(co);
-Obj v__3517709_37 = v__3519334_37;
-Obj v__3519335_37 = primSet(co, v__3517709_37, Nil);
+Obj v__3519418_37 = primGenSym(co);
+Obj v__3517778_37 = v__3519418_37;
+Obj v__3519419_37 = primSet(co, v__3517778_37, Nil);
 R[1] = v_from;
 R[2] = v_to;
-R[3] = v__3517709_37;
-saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3517709_37);
+R[3] = v__3517778_37;
+saveCont(co, clofun145, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3517778_37);
 return;
 }
 case 1:
 {
-Obj v__3519342_37= co->res;
-Obj v__3517711_37 = R[1];
+Obj v__3519426_37= co->res;
+Obj v__3517780_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3517711_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3517780_37);
 return;
 }
 case 2:
 {
-Obj v__3519341_37= co->res;
-Obj v__3517710_37 = R[1];
-Obj v__3517711_37 = R[2];
-R[1] = v__3517711_37;
-saveCont(co, clofun144, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3517711_37, v__3517710_37, v__3519341_37);
+Obj v__3519425_37= co->res;
+Obj v__3517779_37 = R[1];
+Obj v__3517780_37 = R[2];
+R[1] = v__3517780_37;
+saveCont(co, clofun145, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3517780_37, v__3517779_37, v__3519425_37);
 return;
 }
 case 3:
 {
-Obj v__3519340_37= co->res;
-Obj v__3517709_37 = R[1];
-Obj v__3517710_37 = R[2];
-Obj v__3517711_37 = v__3519340_37;
-R[1] = v__3517710_37;
-R[2] = v__3517711_37;
-saveCont(co, clofun144, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517709_37);
+Obj v__3519424_37= co->res;
+Obj v__3517778_37 = R[1];
+Obj v__3517779_37 = R[2];
+Obj v__3517780_37 = v__3519424_37;
+R[1] = v__3517779_37;
+R[2] = v__3517780_37;
+saveCont(co, clofun145, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517778_37);
 return;
 }
 case 4:
 {
-Obj v__3519339_37= co->res;
+Obj v__3519423_37= co->res;
 Obj v_to = R[1];
-Obj v__3517709_37 = R[2];
-Obj v__3517710_37 = v__3519339_37;
-R[1] = v__3517709_37;
-R[2] = v__3517710_37;
-saveCont(co, clofun144, 3, R);
+Obj v__3517778_37 = R[2];
+Obj v__3517779_37 = v__3519423_37;
+R[1] = v__3517778_37;
+R[2] = v__3517779_37;
+saveCont(co, clofun145, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj v__3519338_37= co->res;
-Obj v__3519336_37 = R[1];
+Obj v__3519422_37= co->res;
+Obj v__3519420_37 = R[1];
 Obj v_to = R[2];
-Obj v__3517709_37 = R[3];
+Obj v__3517778_37 = R[3];
 R[1] = v_to;
-R[2] = v__3517709_37;
-saveCont(co, clofun144, 4, R);
-coraCall1(co, v__3519336_37, v__3519338_37);
+R[2] = v__3517778_37;
+saveCont(co, clofun145, 4, R);
+coraCall1(co, v__3519420_37, v__3519422_37);
 return;
 }
 case 6:
 {
-Obj v__3519337_37= co->res;
-Obj v__3519336_37 = R[1];
+Obj v__3519421_37= co->res;
+Obj v__3519420_37 = R[1];
 Obj v_to = R[2];
-Obj v__3517709_37 = R[3];
-R[1] = v__3519336_37;
+Obj v__3517778_37 = R[3];
+R[1] = v__3519420_37;
 R[2] = v_to;
-R[3] = v__3517709_37;
-saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519337_37);
+R[3] = v__3517778_37;
+saveCont(co, clofun145, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519421_37);
 return;
 }
 case 7:
 {
-Obj v__3519336_37= co->res;
+Obj v__3519420_37= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v__3517709_37 = R[3];
-R[1] = v__3519336_37;
+Obj v__3517778_37 = R[3];
+R[1] = v__3519420_37;
 R[2] = v_to;
-R[3] = v__3517709_37;
-saveCont(co, clofun144, 6, R);
+R[3] = v__3517778_37;
+saveCont(co, clofun145, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_file_45path = R[1];
-saveCont(co, clofun143, 8, R);
+saveCont(co, clofun144, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_45path);
 return;
 }
 case 1:
 {
-Obj v__3519328_37= co->res;
-Obj v__3517705_37 = R[1];
+Obj v__3519412_37= co->res;
+Obj v__3517774_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517705_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517774_37);
 return;
 }
 case 2:
 {
-Obj v__3519327_37= co->res;
-Obj v__3517705_37 = R[1];
-R[1] = v__3517705_37;
-saveCont(co, clofun143, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517705_37);
+Obj v__3519411_37= co->res;
+Obj v__3517774_37 = R[1];
+R[1] = v__3517774_37;
+saveCont(co, clofun144, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517774_37);
 return;
 }
 case 3:
 {
-Obj v__3519330_37= co->res;
-Obj v__3517705_37 = R[1];
+Obj v__3519414_37= co->res;
+Obj v__3517774_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517705_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517774_37);
 return;
 }
 case 4:
 {
-Obj v__3519329_37= co->res;
-Obj v__3517705_37 = R[1];
-R[1] = v__3517705_37;
-saveCont(co, clofun143, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517705_37);
+Obj v__3519413_37= co->res;
+Obj v__3517774_37 = R[1];
+R[1] = v__3517774_37;
+saveCont(co, clofun144, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517774_37);
 return;
 }
 case 5:
 {
-Obj v__3519332_37= co->res;
-Obj v__3517705_37 = R[1];
+Obj v__3519416_37= co->res;
+Obj v__3517774_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517705_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517774_37);
 return;
 }
 case 6:
 {
-Obj v__3519331_37= co->res;
-Obj v__3517705_37 = R[1];
-R[1] = v__3517705_37;
-saveCont(co, clofun143, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517705_37);
+Obj v__3519415_37= co->res;
+Obj v__3517774_37 = R[1];
+R[1] = v__3517774_37;
+saveCont(co, clofun144, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517774_37);
 return;
 }
 case 7:
 {
-Obj v__3519324_37= co->res;
-Obj v__3517708_37 = R[1];
-Obj v__3517705_37 = R[2];
-if (True == v__3519324_37) {
-Obj v__3519325_37 = PRIM_CAR(v__3517705_37);
-Obj v__3519326_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519325_37);
-if (True == v__3519326_37) {
-R[1] = v__3517705_37;
-saveCont(co, clofun143, 2, R);
-coraCall1(co, v__3517708_37, True);
+Obj v__3519408_37= co->res;
+Obj v__3517777_37 = R[1];
+Obj v__3517774_37 = R[2];
+if (True == v__3519408_37) {
+Obj v__3519409_37 = PRIM_CAR(v__3517774_37);
+Obj v__3519410_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519409_37);
+if (True == v__3519410_37) {
+R[1] = v__3517774_37;
+saveCont(co, clofun144, 2, R);
+coraCall1(co, v__3517777_37, True);
 return;
 } else {
-R[1] = v__3517705_37;
-saveCont(co, clofun143, 4, R);
-coraCall1(co, v__3517708_37, False);
+R[1] = v__3517774_37;
+saveCont(co, clofun144, 4, R);
+coraCall1(co, v__3517777_37, False);
 return;
 }
 } else {
-R[1] = v__3517705_37;
-saveCont(co, clofun143, 6, R);
-coraCall1(co, v__3517708_37, False);
+R[1] = v__3517774_37;
+saveCont(co, clofun144, 6, R);
+coraCall1(co, v__3517777_37, False);
 return;
 }
 }
 case 8:
 {
-Obj v__3519321_37= co->res;
-Obj v__3517705_37 = v__3519321_37;
-Obj v__3517708_37 = makeNative(co->gc, 2, clofun142, 1, 1, v__3517705_37);
-R[1] = v__3517708_37;
-R[2] = v__3517705_37;
-saveCont(co, clofun143, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3517705_37);
+Obj v__3519405_37= co->res;
+Obj v__3517774_37 = v__3519405_37;
+Obj v__3517777_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3517774_37);
+R[1] = v__3517777_37;
+R[2] = v__3517774_37;
+saveCont(co, clofun144, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3517774_37);
 return;
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517707_37 = R[1];
-if (True == v__3517707_37) {
-Obj v__3519322_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v__3519322_37);
+Obj v__3517776_37 = R[1];
+if (True == v__3517776_37) {
+Obj v__3519406_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v__3519406_37);
 return;
 } else {
-Obj v__3519323_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v__3519323_37);
+Obj v__3519407_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v__3519407_37);
 return;
 }
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517442_37 = R[1];
-Obj v__3517701_37 = makeNative(co->gc, 1, clofun138, 0, 1, v__3517442_37);
-Obj v__3519314_37 = PRIM_ISCONS(v__3517442_37);
-if (True == v__3519314_37) {
-Obj v__3519315_37 = PRIM_CAR(v__3517442_37);
-Obj v__3519316_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519315_37);
-if (True == v__3519316_37) {
-Obj v__3519317_37 = PRIM_CDR(v__3517442_37);
-Obj v__3517704_37 = v__3519317_37;
-Obj v__3519318_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3517704_37);
+Obj v__3517508_37 = R[1];
+Obj v__3517770_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3517508_37);
+Obj v__3519398_37 = PRIM_ISCONS(v__3517508_37);
+if (True == v__3519398_37) {
+Obj v__3519399_37 = PRIM_CAR(v__3517508_37);
+Obj v__3519400_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519399_37);
+if (True == v__3519400_37) {
+Obj v__3519401_37 = PRIM_CDR(v__3517508_37);
+Obj v__3517773_37 = v__3519401_37;
+Obj v__3519402_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3517773_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519318_37, makeNative(co->gc, 2, clofun140, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519402_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517701_37);
+coraCall0(co, v__3517770_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517701_37);
+coraCall0(co, v__3517770_37);
 return;
 }
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun139, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
 return;
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -726,49 +727,49 @@ return;
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517702_37 = makeNative(co->gc, 1, clofun135, 0, 1, closureRef(R[0], 0));
-Obj v__3519309_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519309_37) {
-Obj v__3519310_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519311_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519310_37);
-if (True == v__3519311_37) {
-Obj v__3519312_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517703_37 = v__3519312_37;
-Obj v__3519313_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517703_37);
+Obj v__3517771_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
+Obj v__3519393_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519393_37) {
+Obj v__3519394_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519395_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519394_37);
+if (True == v__3519395_37) {
+Obj v__3519396_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517772_37 = v__3519396_37;
+Obj v__3519397_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517772_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519313_37, makeNative(co->gc, 2, clofun137, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519397_37, makeNative(co->gc, 2, clofun138, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517702_37);
+coraCall0(co, v__3517771_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517702_37);
+coraCall0(co, v__3517771_37);
 return;
 }
 }
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
 return;
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -781,39 +782,39 @@ return;
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519306_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3519390_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519306_37, Nil, Nil, makeNative(co->gc, 3, clofun134, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519390_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
 return;
 }
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_type = R[1];
 Obj v_code = R[2];
-saveCont(co, clofun134, 1, R);
+saveCont(co, clofun135, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
 return;
 }
 case 1:
 {
-Obj v__3519307_37= co->res;
-Obj v__3519308_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519307_37);
-coraReturn(co, v__3519308_37);
+Obj v__3519391_37= co->res;
+Obj v__3519392_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519391_37);
+coraReturn(co, v__3519392_37);
 return;
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -831,219 +832,219 @@ return;
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517435_37 = R[1];
-Obj v__3517436_37 = R[2];
-Obj v__3517690_37 = makeNative(co->gc, 2, clofun131, 0, 2, v__3517435_37, v__3517436_37);
-Obj v__3519292_37 = PRIM_ISCONS(v__3517435_37);
-if (True == v__3519292_37) {
-Obj v__3519293_37 = PRIM_CAR(v__3517435_37);
-Obj v__3519294_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519293_37);
-if (True == v__3519294_37) {
-Obj v__3519295_37 = PRIM_CDR(v__3517435_37);
-Obj v__3519296_37 = PRIM_ISCONS(v__3519295_37);
-if (True == v__3519296_37) {
-Obj v__3519297_37 = PRIM_CDR(v__3517435_37);
-Obj v__3519298_37 = PRIM_CAR(v__3519297_37);
-Obj v__3517699_37 = v__3519298_37;
-Obj v__3519299_37 = PRIM_CDR(v__3517435_37);
-Obj v__3519300_37 = PRIM_CDR(v__3519299_37);
-Obj v__3517700_37 = v__3519300_37;
-R[1] = v__3517699_37;
-saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517700_37, v__3517436_37);
+Obj v__3517501_37 = R[1];
+Obj v__3517502_37 = R[2];
+Obj v__3517759_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3517501_37, v__3517502_37);
+Obj v__3519376_37 = PRIM_ISCONS(v__3517501_37);
+if (True == v__3519376_37) {
+Obj v__3519377_37 = PRIM_CAR(v__3517501_37);
+Obj v__3519378_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519377_37);
+if (True == v__3519378_37) {
+Obj v__3519379_37 = PRIM_CDR(v__3517501_37);
+Obj v__3519380_37 = PRIM_ISCONS(v__3519379_37);
+if (True == v__3519380_37) {
+Obj v__3519381_37 = PRIM_CDR(v__3517501_37);
+Obj v__3519382_37 = PRIM_CAR(v__3519381_37);
+Obj v__3517768_37 = v__3519382_37;
+Obj v__3519383_37 = PRIM_CDR(v__3517501_37);
+Obj v__3519384_37 = PRIM_CDR(v__3519383_37);
+Obj v__3517769_37 = v__3519384_37;
+R[1] = v__3517768_37;
+saveCont(co, clofun133, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517769_37, v__3517502_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517759_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519301_37= co->res;
-Obj v__3517699_37 = R[1];
-Obj v__3519302_37 = makeCons(co->gc, v__3517699_37, v__3519301_37);
-Obj v__3519303_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3519302_37);
-coraReturn(co, v__3519303_37);
+Obj v__3519385_37= co->res;
+Obj v__3517768_37 = R[1];
+Obj v__3519386_37 = makeCons(co->gc, v__3517768_37, v__3519385_37);
+Obj v__3519387_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3519386_37);
+coraReturn(co, v__3519387_37);
 return;
 }
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517691_37 = makeNative(co->gc, 2, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519271_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519271_37) {
-Obj v__3519272_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519273_37 = PRIM_ISCONS(v__3519272_37);
-if (True == v__3519273_37) {
-Obj v__3519274_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519275_37 = PRIM_CAR(v__3519274_37);
-Obj v__3519276_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519275_37);
-if (True == v__3519276_37) {
-Obj v__3519277_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519278_37 = PRIM_CDR(v__3519277_37);
-Obj v__3519279_37 = PRIM_ISCONS(v__3519278_37);
-if (True == v__3519279_37) {
-Obj v__3519280_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519281_37 = PRIM_CDR(v__3519280_37);
-Obj v__3519282_37 = PRIM_CAR(v__3519281_37);
-Obj v__3517697_37 = v__3519282_37;
-Obj v__3519283_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519284_37 = PRIM_CDR(v__3519283_37);
-Obj v__3519285_37 = PRIM_CDR(v__3519284_37);
-Obj v__3519286_37 = PRIM_EQ(Nil, v__3519285_37);
-if (True == v__3519286_37) {
-Obj v__3519287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517698_37 = v__3519287_37;
-Obj v__3519288_37 = makeCons(co->gc, v__3517697_37, Nil);
-Obj v__3519289_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519288_37);
-R[1] = v__3519289_37;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517698_37, closureRef(R[0], 1));
+Obj v__3517760_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519355_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519355_37) {
+Obj v__3519356_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519357_37 = PRIM_ISCONS(v__3519356_37);
+if (True == v__3519357_37) {
+Obj v__3519358_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519359_37 = PRIM_CAR(v__3519358_37);
+Obj v__3519360_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519359_37);
+if (True == v__3519360_37) {
+Obj v__3519361_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519362_37 = PRIM_CDR(v__3519361_37);
+Obj v__3519363_37 = PRIM_ISCONS(v__3519362_37);
+if (True == v__3519363_37) {
+Obj v__3519364_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519365_37 = PRIM_CDR(v__3519364_37);
+Obj v__3519366_37 = PRIM_CAR(v__3519365_37);
+Obj v__3517766_37 = v__3519366_37;
+Obj v__3519367_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519368_37 = PRIM_CDR(v__3519367_37);
+Obj v__3519369_37 = PRIM_CDR(v__3519368_37);
+Obj v__3519370_37 = PRIM_EQ(Nil, v__3519369_37);
+if (True == v__3519370_37) {
+Obj v__3519371_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517767_37 = v__3519371_37;
+Obj v__3519372_37 = makeCons(co->gc, v__3517766_37, Nil);
+Obj v__3519373_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519372_37);
+R[1] = v__3519373_37;
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517767_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517760_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519290_37= co->res;
-Obj v__3519289_37 = R[1];
-Obj v__3519291_37 = makeCons(co->gc, v__3519289_37, v__3519290_37);
-coraReturn(co, v__3519291_37);
+Obj v__3519374_37= co->res;
+Obj v__3519373_37 = R[1];
+Obj v__3519375_37 = makeCons(co->gc, v__3519373_37, v__3519374_37);
+coraReturn(co, v__3519375_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517692_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519259_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519259_37) {
-Obj v__3519260_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519261_37 = PRIM_ISCONS(v__3519260_37);
-if (True == v__3519261_37) {
-Obj v__3519262_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519263_37 = PRIM_CAR(v__3519262_37);
-Obj v__3519264_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519263_37);
-if (True == v__3519264_37) {
-Obj v__3519265_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519266_37 = PRIM_CDR(v__3519265_37);
-Obj v__3517695_37 = v__3519266_37;
-Obj v__3519267_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517696_37 = v__3519267_37;
-Obj v__3519268_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517695_37);
-R[1] = v__3519268_37;
-saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517696_37, closureRef(R[0], 1));
+Obj v__3517761_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519343_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519343_37) {
+Obj v__3519344_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519345_37 = PRIM_ISCONS(v__3519344_37);
+if (True == v__3519345_37) {
+Obj v__3519346_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519347_37 = PRIM_CAR(v__3519346_37);
+Obj v__3519348_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519347_37);
+if (True == v__3519348_37) {
+Obj v__3519349_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519350_37 = PRIM_CDR(v__3519349_37);
+Obj v__3517764_37 = v__3519350_37;
+Obj v__3519351_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517765_37 = v__3519351_37;
+Obj v__3519352_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517764_37);
+R[1] = v__3519352_37;
+saveCont(co, clofun131, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517765_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519269_37= co->res;
-Obj v__3519268_37 = R[1];
-Obj v__3519270_37 = makeCons(co->gc, v__3519268_37, v__3519269_37);
-coraReturn(co, v__3519270_37);
+Obj v__3519353_37= co->res;
+Obj v__3519352_37 = R[1];
+Obj v__3519354_37 = makeCons(co->gc, v__3519352_37, v__3519353_37);
+coraReturn(co, v__3519354_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517693_37 = makeNative(co->gc, 1, clofun128, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3519253_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519253_37) {
-Obj v__3519254_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519255_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519254_37);
-if (True == v__3519255_37) {
-Obj v__3519256_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517694_37 = v__3519256_37;
-saveCont(co, clofun129, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517694_37, closureRef(R[0], 1));
+Obj v__3517762_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3519337_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519337_37) {
+Obj v__3519338_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519339_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519338_37);
+if (True == v__3519339_37) {
+Obj v__3519340_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517763_37 = v__3519340_37;
+saveCont(co, clofun130, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517763_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517762_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517762_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519257_37= co->res;
-Obj v__3519258_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519257_37);
-coraReturn(co, v__3519258_37);
+Obj v__3519341_37= co->res;
+Obj v__3519342_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519341_37);
+coraReturn(co, v__3519342_37);
 return;
 }
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1054,147 +1055,147 @@ return;
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517427_37 = R[1];
-Obj v__3517428_37 = R[2];
-Obj v__3517429_37 = R[3];
-Obj v__3517430_37 = R[4];
-Obj v__3519214_37 = PRIM_EQ(Nil, v__3517427_37);
-if (True == v__3519214_37) {
-R[1] = v__3517429_37;
-R[2] = v__3517430_37;
-saveCont(co, clofun127, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517428_37);
+Obj v__3517493_37 = R[1];
+Obj v__3517494_37 = R[2];
+Obj v__3517495_37 = R[3];
+Obj v__3517496_37 = R[4];
+Obj v__3519298_37 = PRIM_EQ(Nil, v__3517493_37);
+if (True == v__3519298_37) {
+R[1] = v__3517495_37;
+R[2] = v__3517496_37;
+saveCont(co, clofun128, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517494_37);
 return;
 } else {
-Obj v__3517682_37 = makeNative(co->gc, 1, clofun126, 0, 4, v__3517427_37, v__3517428_37, v__3517429_37, v__3517430_37);
-Obj v__3519241_37 = PRIM_ISCONS(v__3517427_37);
-if (True == v__3519241_37) {
-Obj v__3519242_37 = PRIM_CAR(v__3517427_37);
-Obj v__3519243_37 = PRIM_ISCONS(v__3519242_37);
-if (True == v__3519243_37) {
-Obj v__3519244_37 = PRIM_CAR(v__3517427_37);
-Obj v__3519245_37 = PRIM_CAR(v__3519244_37);
-Obj v__3519246_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3519245_37);
-if (True == v__3519246_37) {
-Obj v__3519247_37 = PRIM_CAR(v__3517427_37);
-Obj v__3519248_37 = PRIM_CDR(v__3519247_37);
-Obj v__3517688_37 = v__3519248_37;
-Obj v__3519249_37 = PRIM_CDR(v__3517427_37);
-Obj v__3517689_37 = v__3519249_37;
-Obj v__3519250_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517688_37);
-Obj v__3519251_37 = makeCons(co->gc, v__3519250_37, v__3517428_37);
+Obj v__3517751_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3517493_37, v__3517494_37, v__3517495_37, v__3517496_37);
+Obj v__3519325_37 = PRIM_ISCONS(v__3517493_37);
+if (True == v__3519325_37) {
+Obj v__3519326_37 = PRIM_CAR(v__3517493_37);
+Obj v__3519327_37 = PRIM_ISCONS(v__3519326_37);
+if (True == v__3519327_37) {
+Obj v__3519328_37 = PRIM_CAR(v__3517493_37);
+Obj v__3519329_37 = PRIM_CAR(v__3519328_37);
+Obj v__3519330_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3519329_37);
+if (True == v__3519330_37) {
+Obj v__3519331_37 = PRIM_CAR(v__3517493_37);
+Obj v__3519332_37 = PRIM_CDR(v__3519331_37);
+Obj v__3517757_37 = v__3519332_37;
+Obj v__3519333_37 = PRIM_CDR(v__3517493_37);
+Obj v__3517758_37 = v__3519333_37;
+Obj v__3519334_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517757_37);
+Obj v__3519335_37 = makeCons(co->gc, v__3519334_37, v__3517494_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517689_37, v__3519251_37, v__3517429_37, v__3517430_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517758_37, v__3519335_37, v__3517495_37, v__3517496_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517682_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517682_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517682_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519216_37= co->res;
-Obj v__3517430_37 = R[1];
-Obj v__3519215_37 = R[2];
+Obj v__3519300_37= co->res;
+Obj v__3517496_37 = R[1];
+Obj v__3519299_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3517430_37, v__3519215_37, v__3519216_37);
+coraCall2(co, v__3517496_37, v__3519299_37, v__3519300_37);
 return;
 }
 case 2:
 {
-Obj v__3519215_37= co->res;
-Obj v__3517429_37 = R[1];
-Obj v__3517430_37 = R[2];
-R[1] = v__3517430_37;
-R[2] = v__3519215_37;
-saveCont(co, clofun127, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517429_37);
+Obj v__3519299_37= co->res;
+Obj v__3517495_37 = R[1];
+Obj v__3517496_37 = R[2];
+R[1] = v__3517496_37;
+R[2] = v__3519299_37;
+saveCont(co, clofun128, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517495_37);
 return;
 }
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517683_37 = makeNative(co->gc, 1, clofun125, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3519230_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519230_37) {
-Obj v__3519231_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519232_37 = PRIM_ISCONS(v__3519231_37);
-if (True == v__3519232_37) {
-Obj v__3519233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519234_37 = PRIM_CAR(v__3519233_37);
-Obj v__3519235_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3519234_37);
-if (True == v__3519235_37) {
-Obj v__3519236_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519237_37 = PRIM_CDR(v__3519236_37);
-Obj v__3517686_37 = v__3519237_37;
-Obj v__3519238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517687_37 = v__3519238_37;
-Obj v__3519239_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3517686_37);
-Obj v__3519240_37 = makeCons(co->gc, v__3519239_37, closureRef(R[0], 1));
+Obj v__3517752_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3519314_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519314_37) {
+Obj v__3519315_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519316_37 = PRIM_ISCONS(v__3519315_37);
+if (True == v__3519316_37) {
+Obj v__3519317_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519318_37 = PRIM_CAR(v__3519317_37);
+Obj v__3519319_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3519318_37);
+if (True == v__3519319_37) {
+Obj v__3519320_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519321_37 = PRIM_CDR(v__3519320_37);
+Obj v__3517755_37 = v__3519321_37;
+Obj v__3519322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517756_37 = v__3519322_37;
+Obj v__3519323_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3517755_37);
+Obj v__3519324_37 = makeCons(co->gc, v__3519323_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517687_37, v__3519240_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517756_37, v__3519324_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517683_37);
+coraCall0(co, v__3517752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517683_37);
+coraCall0(co, v__3517752_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517683_37);
+coraCall0(co, v__3517752_37);
 return;
 }
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519217_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519217_37) {
-Obj v__3519218_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517684_37 = v__3519218_37;
-Obj v__3519219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517685_37 = v__3519219_37;
-Obj v__3519220_37 = makeCons(co->gc, v__3517684_37, Nil);
-Obj v__3519221_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3519220_37);
-Obj v__3519222_37 = makeCons(co->gc, v__3519221_37, Nil);
-Obj v__3519223_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519222_37);
-Obj v__3519224_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v__3519225_37 = makeCons(co->gc, v__3519224_37, Nil);
-Obj v__3519226_37 = makeCons(co->gc, v__3519223_37, v__3519225_37);
-Obj v__3519227_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519226_37);
-Obj v__3519228_37 = makeCons(co->gc, v__3519227_37, closureRef(R[0], 1));
-Obj v__3519229_37 = makeCons(co->gc, v__3517684_37, closureRef(R[0], 2));
+Obj v__3519301_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519301_37) {
+Obj v__3519302_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517753_37 = v__3519302_37;
+Obj v__3519303_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517754_37 = v__3519303_37;
+Obj v__3519304_37 = makeCons(co->gc, v__3517753_37, Nil);
+Obj v__3519305_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3519304_37);
+Obj v__3519306_37 = makeCons(co->gc, v__3519305_37, Nil);
+Obj v__3519307_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519306_37);
+Obj v__3519308_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v__3519309_37 = makeCons(co->gc, v__3519308_37, Nil);
+Obj v__3519310_37 = makeCons(co->gc, v__3519307_37, v__3519309_37);
+Obj v__3519311_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519310_37);
+Obj v__3519312_37 = makeCons(co->gc, v__3519311_37, closureRef(R[0], 1));
+Obj v__3519313_37 = makeCons(co->gc, v__3517753_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517685_37, v__3519228_37, v__3519229_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517754_37, v__3519312_37, v__3519313_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1205,187 +1206,187 @@ return;
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517421_37 = R[1];
-Obj v__3517673_37 = makeNative(co->gc, 1, clofun123, 0, 1, v__3517421_37);
-Obj v__3519204_37 = PRIM_ISCONS(v__3517421_37);
-if (True == v__3519204_37) {
-Obj v__3519205_37 = PRIM_CAR(v__3517421_37);
-Obj v__3519206_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519205_37);
-if (True == v__3519206_37) {
-Obj v__3519207_37 = PRIM_CDR(v__3517421_37);
-Obj v__3519208_37 = PRIM_ISCONS(v__3519207_37);
-if (True == v__3519208_37) {
-Obj v__3519209_37 = PRIM_CDR(v__3517421_37);
-Obj v__3519210_37 = PRIM_CAR(v__3519209_37);
-Obj v__3519211_37 = PRIM_CDR(v__3517421_37);
-Obj v__3519212_37 = PRIM_CDR(v__3519211_37);
-Obj v__3517681_37 = v__3519212_37;
+Obj v__3517487_37 = R[1];
+Obj v__3517742_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3517487_37);
+Obj v__3519288_37 = PRIM_ISCONS(v__3517487_37);
+if (True == v__3519288_37) {
+Obj v__3519289_37 = PRIM_CAR(v__3517487_37);
+Obj v__3519290_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519289_37);
+if (True == v__3519290_37) {
+Obj v__3519291_37 = PRIM_CDR(v__3517487_37);
+Obj v__3519292_37 = PRIM_ISCONS(v__3519291_37);
+if (True == v__3519292_37) {
+Obj v__3519293_37 = PRIM_CDR(v__3517487_37);
+Obj v__3519294_37 = PRIM_CAR(v__3519293_37);
+Obj v__3519295_37 = PRIM_CDR(v__3517487_37);
+Obj v__3519296_37 = PRIM_CDR(v__3519295_37);
+Obj v__3517750_37 = v__3519296_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517681_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517750_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3517742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3517742_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3517742_37);
 return;
 }
 }
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517674_37 = makeNative(co->gc, 1, clofun122, 0, 1, closureRef(R[0], 0));
-Obj v__3519200_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519200_37) {
-Obj v__3519201_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519202_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519201_37);
-if (True == v__3519202_37) {
-Obj v__3519203_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517680_37 = v__3519203_37;
+Obj v__3517743_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
+Obj v__3519284_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519284_37) {
+Obj v__3519285_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519286_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519285_37);
+if (True == v__3519286_37) {
+Obj v__3519287_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517749_37 = v__3519287_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517680_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517749_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3517743_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3517743_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517675_37 = makeNative(co->gc, 2, clofun121, 0, 1, closureRef(R[0], 0));
-Obj v__3519191_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519191_37) {
-Obj v__3519192_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519193_37 = PRIM_ISCONS(v__3519192_37);
-if (True == v__3519193_37) {
-Obj v__3519194_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519195_37 = PRIM_CAR(v__3519194_37);
-Obj v__3519196_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519195_37);
-if (True == v__3519196_37) {
-Obj v__3519197_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519198_37 = PRIM_CDR(v__3519197_37);
-Obj v__3519199_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517679_37 = v__3519199_37;
+Obj v__3517744_37 = makeNative(co->gc, 2, clofun122, 0, 1, closureRef(R[0], 0));
+Obj v__3519275_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519275_37) {
+Obj v__3519276_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519277_37 = PRIM_ISCONS(v__3519276_37);
+if (True == v__3519277_37) {
+Obj v__3519278_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519279_37 = PRIM_CAR(v__3519278_37);
+Obj v__3519280_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519279_37);
+if (True == v__3519280_37) {
+Obj v__3519281_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519282_37 = PRIM_CDR(v__3519281_37);
+Obj v__3519283_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517748_37 = v__3519283_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517679_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517748_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3517744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3517744_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3517744_37);
 return;
 }
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517676_37 = makeNative(co->gc, 1, clofun120, 0, 0);
-Obj v__3519173_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519173_37) {
-Obj v__3519174_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519175_37 = PRIM_ISCONS(v__3519174_37);
-if (True == v__3519175_37) {
-Obj v__3519176_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519177_37 = PRIM_CAR(v__3519176_37);
-Obj v__3519178_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519177_37);
-if (True == v__3519178_37) {
-Obj v__3519179_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519180_37 = PRIM_CDR(v__3519179_37);
-Obj v__3519181_37 = PRIM_ISCONS(v__3519180_37);
-if (True == v__3519181_37) {
-Obj v__3519182_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519183_37 = PRIM_CDR(v__3519182_37);
-Obj v__3519184_37 = PRIM_CAR(v__3519183_37);
-Obj v__3517677_37 = v__3519184_37;
-Obj v__3519185_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519186_37 = PRIM_CDR(v__3519185_37);
-Obj v__3519187_37 = PRIM_CDR(v__3519186_37);
-Obj v__3519188_37 = PRIM_EQ(Nil, v__3519187_37);
-if (True == v__3519188_37) {
-Obj v__3519189_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517678_37 = v__3519189_37;
-R[1] = v__3517678_37;
-saveCont(co, clofun121, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3517677_37);
+Obj v__3517745_37 = makeNative(co->gc, 1, clofun121, 0, 0);
+Obj v__3519257_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519257_37) {
+Obj v__3519258_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519259_37 = PRIM_ISCONS(v__3519258_37);
+if (True == v__3519259_37) {
+Obj v__3519260_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519261_37 = PRIM_CAR(v__3519260_37);
+Obj v__3519262_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519261_37);
+if (True == v__3519262_37) {
+Obj v__3519263_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519264_37 = PRIM_CDR(v__3519263_37);
+Obj v__3519265_37 = PRIM_ISCONS(v__3519264_37);
+if (True == v__3519265_37) {
+Obj v__3519266_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519267_37 = PRIM_CDR(v__3519266_37);
+Obj v__3519268_37 = PRIM_CAR(v__3519267_37);
+Obj v__3517746_37 = v__3519268_37;
+Obj v__3519269_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519270_37 = PRIM_CDR(v__3519269_37);
+Obj v__3519271_37 = PRIM_CDR(v__3519270_37);
+Obj v__3519272_37 = PRIM_EQ(Nil, v__3519271_37);
+if (True == v__3519272_37) {
+Obj v__3519273_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517747_37 = v__3519273_37;
+R[1] = v__3517747_37;
+saveCont(co, clofun122, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3517746_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3517745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3517745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3517745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3517745_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3517745_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519190_37= co->res;
-Obj v__3517678_37 = R[1];
+Obj v__3519274_37= co->res;
+Obj v__3517747_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517678_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517747_37);
 return;
 }
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1395,7 +1396,7 @@ return;
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1405,118 +1406,118 @@ Obj v_globals = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 8, R);
+saveCont(co, clofun120, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3519171_37= co->res;
+Obj v__3519255_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 2, v_to, v_globals), v_bc);
 return;
 }
 case 2:
 {
-Obj v__3519170_37= co->res;
-Obj v__3519168_37 = R[1];
+Obj v__3519254_37= co->res;
+Obj v__3519252_37 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v__3519168_37, v__3519170_37);
+saveCont(co, clofun120, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v__3519252_37, v__3519254_37);
 return;
 }
 case 3:
 {
-Obj v__3519168_37= co->res;
+Obj v__3519252_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-Obj v__3519169_37 = PRIM_CAR(v_bc);
-R[1] = v__3519168_37;
+Obj v__3519253_37 = PRIM_CAR(v_bc);
+R[1] = v__3519252_37;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
-saveCont(co, clofun119, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519169_37);
+saveCont(co, clofun120, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519253_37);
 return;
 }
 case 4:
 {
-Obj v__3519167_37= co->res;
+Obj v__3519251_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 3, R);
+saveCont(co, clofun120, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_bc);
 return;
 }
 case 5:
 {
-Obj v__3519166_37= co->res;
+Obj v__3519250_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 4, R);
+saveCont(co, clofun120, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj v__3519163_37= co->res;
+Obj v__3519247_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun117, 1, 1, v_to), v_bc);
+saveCont(co, clofun120, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 1, v_to), v_bc);
 return;
 }
 case 7:
 {
-Obj v__3519162_37= co->res;
+Obj v__3519246_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 6, R);
+saveCont(co, clofun120, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 8:
 {
-Obj v__3519161_37= co->res;
+Obj v__3519245_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
 R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
-saveCont(co, clofun119, 7, R);
+saveCont(co, clofun120, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1528,19 +1529,19 @@ return;
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v__3519164_37 = PRIM_CAR(v_group);
-saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3519164_37);
+Obj v__3519248_37 = PRIM_CAR(v_group);
+saveCont(co, clofun118, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3519248_37);
 return;
 }
 case 1:
 {
-Obj v__3519165_37= co->res;
+Obj v__3519249_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1548,7 +1549,7 @@ return;
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1560,13 +1561,13 @@ R[1] = v_globals;
 R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 15, R);
+saveCont(co, clofun117, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3519159_37= co->res;
+Obj v__3519243_37= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1574,97 +1575,97 @@ return;
 }
 case 2:
 {
-Obj v__3519158_37= co->res;
+Obj v__3519242_37= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun116, 1, R);
+saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3519157_37= co->res;
+Obj v__3519241_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
-saveCont(co, clofun116, 2, R);
+saveCont(co, clofun117, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_to, v_label);
 return;
 }
 case 4:
 {
-Obj v__3519156_37= co->res;
+Obj v__3519240_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 3, R);
+saveCont(co, clofun117, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v__3519155_37= co->res;
+Obj v__3519239_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 4, R);
+saveCont(co, clofun117, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v__3519154_37= co->res;
+Obj v__3519238_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519154_37);
+saveCont(co, clofun117, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519238_37);
 return;
 }
 case 7:
 {
-Obj v__3519153_37= co->res;
+Obj v__3519237_37= co->res;
 Obj v_lam = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_label;
 R[2] = v_to;
-saveCont(co, clofun116, 6, R);
+saveCont(co, clofun117, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_lam);
 return;
 }
 case 8:
 {
-Obj v__3519152_37= co->res;
+Obj v__3519236_37= co->res;
 Obj v_lam = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_lam;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun116, 7, R);
+saveCont(co, clofun117, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj v__3519151_37= co->res;
+Obj v__3519235_37= co->res;
 Obj v_lam = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
 R[1] = v_lam;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun116, 8, R);
+saveCont(co, clofun117, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj v__3519142_37= co->res;
+Obj v__3519226_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1672,13 +1673,13 @@ Obj v_to = R[4];
 R[1] = v_lam;
 R[2] = v_label;
 R[3] = v_to;
-saveCont(co, clofun116, 9, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun115, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+saveCont(co, clofun117, 9, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun116, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
 return;
 }
 case 11:
 {
-Obj v__3519141_37= co->res;
+Obj v__3519225_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1687,13 +1688,13 @@ R[1] = v_globals;
 R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 10, R);
+saveCont(co, clofun117, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3519140_37= co->res;
+Obj v__3519224_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1702,13 +1703,13 @@ R[1] = v_globals;
 R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519140_37);
+saveCont(co, clofun117, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519224_37);
 return;
 }
 case 13:
 {
-Obj v__3519139_37= co->res;
+Obj v__3519223_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1717,13 +1718,13 @@ R[1] = v_globals;
 R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 12, R);
+saveCont(co, clofun117, 12, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_globals);
 return;
 }
 case 14:
 {
-Obj v__3519138_37= co->res;
+Obj v__3519222_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1732,13 +1733,13 @@ R[1] = v_globals;
 R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 13, R);
+saveCont(co, clofun117, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 15:
 {
-Obj v__3519137_37= co->res;
+Obj v__3519221_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1747,14 +1748,14 @@ R[1] = v_globals;
 R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
-saveCont(co, clofun116, 14, R);
+saveCont(co, clofun117, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1762,99 +1763,99 @@ Obj v_acc = R[1];
 Obj v_sym = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun115, 7, R);
+saveCont(co, clofun116, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3519149_37= co->res;
+Obj v__3519233_37= co->res;
 Obj v_acc = R[1];
-Obj v__3519150_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519150_37);
+Obj v__3519234_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519234_37);
 return;
 }
 case 2:
 {
-Obj v__3519148_37= co->res;
+Obj v__3519232_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun115, 1, R);
+saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3519147_37= co->res;
+Obj v__3519231_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun115, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3519147_37);
+saveCont(co, clofun116, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3519231_37);
 return;
 }
 case 4:
 {
-Obj v__3519146_37= co->res;
+Obj v__3519230_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3519146_37);
+saveCont(co, clofun116, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3519230_37);
 return;
 }
 case 5:
 {
-Obj v__3519145_37= co->res;
+Obj v__3519229_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun115, 4, R);
+saveCont(co, clofun116, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v_sym);
 return;
 }
 case 6:
 {
-Obj v__3519144_37= co->res;
+Obj v__3519228_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun115, 5, R);
+saveCont(co, clofun116, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3519143_37= co->res;
+Obj v__3519227_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
 R[2] = v_acc;
-saveCont(co, clofun115, 6, R);
+saveCont(co, clofun116, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v_acc);
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v__3519115_37 = PRIM_CAR(v_group);
-Obj v__3517669_37 = v__3519115_37;
+Obj v__3519199_37 = PRIM_CAR(v_group);
+Obj v__3517738_37 = v__3519199_37;
 R[1] = v_globals;
-R[2] = v__3517669_37;
+R[2] = v__3517738_37;
 R[3] = v_to;
-saveCont(co, clofun114, 13, R);
+saveCont(co, clofun115, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_group);
 return;
 }
 case 1:
 {
-Obj v__3519135_37= co->res;
+Obj v__3519219_37= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1862,205 +1863,205 @@ return;
 }
 case 2:
 {
-Obj v__3519134_37= co->res;
+Obj v__3519218_37= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
-saveCont(co, clofun114, 1, R);
+saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519133_37= co->res;
+Obj v__3519217_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517669_37 = R[2];
-Obj v__3517670_37 = R[3];
+Obj v__3517738_37 = R[2];
+Obj v__3517739_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
-saveCont(co, clofun114, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun113, 2, 4, v_globals, v__3517669_37, v__3517670_37, v_to), MAKE_NUMBER(1), v__3519133_37);
+saveCont(co, clofun115, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 4, v_globals, v__3517738_37, v__3517739_37, v_to), MAKE_NUMBER(1), v__3519217_37);
 return;
 }
 case 4:
 {
-Obj v__3519125_37= co->res;
+Obj v__3519209_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517669_37 = R[2];
-Obj v__3517670_37 = R[3];
+Obj v__3517738_37 = R[2];
+Obj v__3517739_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v__3517669_37;
-R[3] = v__3517670_37;
+R[2] = v__3517738_37;
+R[3] = v__3517739_37;
 R[4] = v_to;
-saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517670_37);
+saveCont(co, clofun115, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517739_37);
 return;
 }
 case 5:
 {
-Obj v__3519124_37= co->res;
+Obj v__3519208_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517669_37 = R[2];
-Obj v__3517670_37 = R[3];
+Obj v__3517738_37 = R[2];
+Obj v__3517739_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v__3517669_37;
-R[3] = v__3517670_37;
+R[2] = v__3517738_37;
+R[3] = v__3517739_37;
 R[4] = v_to;
-saveCont(co, clofun114, 4, R);
+saveCont(co, clofun115, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3519123_37= co->res;
-Obj v__3517671_37 = R[1];
-Obj v__3517672_37 = R[2];
+Obj v__3519207_37= co->res;
+Obj v__3517740_37 = R[1];
+Obj v__3517741_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517669_37 = R[4];
-Obj v__3517670_37 = R[5];
+Obj v__3517738_37 = R[4];
+Obj v__3517739_37 = R[5];
 Obj v_to = R[6];
 R[1] = v_globals;
-R[2] = v__3517669_37;
-R[3] = v__3517670_37;
+R[2] = v__3517738_37;
+R[3] = v__3517739_37;
 R[4] = v_to;
-saveCont(co, clofun114, 5, R);
-Obj __args[5] = {v_globals, v__3517669_37, v__3517671_37, v_to, v__3517672_37};
+saveCont(co, clofun115, 5, R);
+Obj __args[5] = {v_globals, v__3517738_37, v__3517740_37, v_to, v__3517741_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519122_37= co->res;
-Obj v__3517671_37 = R[1];
-Obj v__3517672_37 = R[2];
+Obj v__3519206_37= co->res;
+Obj v__3517740_37 = R[1];
+Obj v__3517741_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517669_37 = R[4];
-Obj v__3517670_37 = R[5];
+Obj v__3517738_37 = R[4];
+Obj v__3517739_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517671_37;
-R[2] = v__3517672_37;
+R[1] = v__3517740_37;
+R[2] = v__3517741_37;
 R[3] = v_globals;
-R[4] = v__3517669_37;
-R[5] = v__3517670_37;
+R[4] = v__3517738_37;
+R[5] = v__3517739_37;
 R[6] = v_to;
-saveCont(co, clofun114, 6, R);
-Obj __args[5] = {v_globals, v__3517669_37, Nil, v_to, v__3517671_37};
+saveCont(co, clofun115, 6, R);
+Obj __args[5] = {v_globals, v__3517738_37, Nil, v_to, v__3517740_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3519121_37= co->res;
-Obj v__3517671_37 = R[1];
-Obj v__3517672_37 = R[2];
+Obj v__3519205_37= co->res;
+Obj v__3517740_37 = R[1];
+Obj v__3517741_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517669_37 = R[4];
-Obj v__3517670_37 = R[5];
+Obj v__3517738_37 = R[4];
+Obj v__3517739_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517671_37;
-R[2] = v__3517672_37;
+R[1] = v__3517740_37;
+R[2] = v__3517741_37;
 R[3] = v_globals;
-R[4] = v__3517669_37;
-R[5] = v__3517670_37;
+R[4] = v__3517738_37;
+R[5] = v__3517739_37;
 R[6] = v_to;
-saveCont(co, clofun114, 7, R);
+saveCont(co, clofun115, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3519120_37= co->res;
-Obj v__3517671_37 = R[1];
-Obj v__3517672_37 = R[2];
+Obj v__3519204_37= co->res;
+Obj v__3517740_37 = R[1];
+Obj v__3517741_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517669_37 = R[4];
-Obj v__3517670_37 = R[5];
+Obj v__3517738_37 = R[4];
+Obj v__3517739_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517671_37;
-R[2] = v__3517672_37;
+R[1] = v__3517740_37;
+R[2] = v__3517741_37;
 R[3] = v_globals;
-R[4] = v__3517669_37;
-R[5] = v__3517670_37;
+R[4] = v__3517738_37;
+R[5] = v__3517739_37;
 R[6] = v_to;
-saveCont(co, clofun114, 8, R);
+saveCont(co, clofun115, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3519119_37= co->res;
-Obj v__3517671_37 = R[1];
-Obj v__3517672_37 = R[2];
+Obj v__3519203_37= co->res;
+Obj v__3517740_37 = R[1];
+Obj v__3517741_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517669_37 = R[4];
-Obj v__3517670_37 = R[5];
+Obj v__3517738_37 = R[4];
+Obj v__3517739_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517671_37;
-R[2] = v__3517672_37;
+R[1] = v__3517740_37;
+R[2] = v__3517741_37;
 R[3] = v_globals;
-R[4] = v__3517669_37;
-R[5] = v__3517670_37;
+R[4] = v__3517738_37;
+R[5] = v__3517739_37;
 R[6] = v_to;
-saveCont(co, clofun114, 9, R);
+saveCont(co, clofun115, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3519118_37= co->res;
-Obj v__3517671_37 = R[1];
+Obj v__3519202_37= co->res;
+Obj v__3517740_37 = R[1];
 Obj v_globals = R[2];
-Obj v__3517669_37 = R[3];
-Obj v__3517670_37 = R[4];
+Obj v__3517738_37 = R[3];
+Obj v__3517739_37 = R[4];
 Obj v_to = R[5];
-Obj v__3517672_37 = v__3519118_37;
-R[1] = v__3517671_37;
-R[2] = v__3517672_37;
+Obj v__3517741_37 = v__3519202_37;
+R[1] = v__3517740_37;
+R[2] = v__3517741_37;
 R[3] = v_globals;
-R[4] = v__3517669_37;
-R[5] = v__3517670_37;
+R[4] = v__3517738_37;
+R[5] = v__3517739_37;
 R[6] = v_to;
-saveCont(co, clofun114, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v__3517669_37);
+saveCont(co, clofun115, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v__3517738_37);
 return;
 }
 case 12:
 {
-Obj v__3519117_37= co->res;
+Obj v__3519201_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517669_37 = R[2];
-Obj v__3517670_37 = R[3];
+Obj v__3517738_37 = R[2];
+Obj v__3517739_37 = R[3];
 Obj v_to = R[4];
-Obj v__3517671_37 = v__3519117_37;
-R[1] = v__3517671_37;
+Obj v__3517740_37 = v__3519201_37;
+R[1] = v__3517740_37;
 R[2] = v_globals;
-R[3] = v__3517669_37;
-R[4] = v__3517670_37;
+R[3] = v__3517738_37;
+R[4] = v__3517739_37;
 R[5] = v_to;
-saveCont(co, clofun114, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517670_37);
+saveCont(co, clofun115, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517739_37);
 return;
 }
 case 13:
 {
-Obj v__3519116_37= co->res;
+Obj v__3519200_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517669_37 = R[2];
+Obj v__3517738_37 = R[2];
 Obj v_to = R[3];
-Obj v__3517670_37 = v__3519116_37;
+Obj v__3517739_37 = v__3519200_37;
 R[1] = v_globals;
-R[2] = v__3517669_37;
-R[3] = v__3517670_37;
+R[2] = v__3517738_37;
+R[3] = v__3517739_37;
 R[4] = v_to;
-saveCont(co, clofun114, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517670_37);
+saveCont(co, clofun115, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517739_37);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2068,95 +2069,95 @@ Obj v_acc = R[1];
 Obj v_cont = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 6, R);
+saveCont(co, clofun114, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3519131_37= co->res;
+Obj v__3519215_37= co->res;
 Obj v_acc = R[1];
-Obj v__3519132_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519132_37);
+Obj v__3519216_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519216_37);
 return;
 }
 case 2:
 {
-Obj v__3519130_37= co->res;
+Obj v__3519214_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun113, 1, R);
+saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519129_37= co->res;
+Obj v__3519213_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun113, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519129_37, closureRef(R[0], 3), v_cont};
+saveCont(co, clofun114, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519213_37, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3519128_37= co->res;
+Obj v__3519212_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 3, R);
+saveCont(co, clofun114, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3519127_37= co->res;
+Obj v__3519211_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 4, R);
+saveCont(co, clofun114, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3519126_37= co->res;
+Obj v__3519210_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
 R[2] = v_acc;
-saveCont(co, clofun113, 5, R);
+saveCont(co, clofun114, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517417_37 = R[1];
-Obj v__3517418_37 = R[2];
-Obj v__3519109_37 = PRIM_EQ(Nil, v__3517418_37);
-if (True == v__3519109_37) {
+Obj v__3517483_37 = R[1];
+Obj v__3517484_37 = R[2];
+Obj v__3519193_37 = PRIM_EQ(Nil, v__3517484_37);
+if (True == v__3519193_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519110_37 = PRIM_ISCONS(v__3517418_37);
-if (True == v__3519110_37) {
-Obj v__3519111_37 = PRIM_CAR(v__3517418_37);
-Obj v__3517667_37 = v__3519111_37;
-Obj v__3519112_37 = PRIM_CDR(v__3517418_37);
-Obj v__3517668_37 = v__3519112_37;
-R[1] = v__3517417_37;
-R[2] = v__3517668_37;
-saveCont(co, clofun112, 1, R);
-coraCall1(co, v__3517417_37, v__3517667_37);
+Obj v__3519194_37 = PRIM_ISCONS(v__3517484_37);
+if (True == v__3519194_37) {
+Obj v__3519195_37 = PRIM_CAR(v__3517484_37);
+Obj v__3517736_37 = v__3519195_37;
+Obj v__3519196_37 = PRIM_CDR(v__3517484_37);
+Obj v__3517737_37 = v__3519196_37;
+R[1] = v__3517483_37;
+R[2] = v__3517737_37;
+saveCont(co, clofun113, 1, R);
+coraCall1(co, v__3517483_37, v__3517736_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2167,119 +2168,119 @@ return;
 }
 case 1:
 {
-Obj v__3519113_37= co->res;
-Obj v__3517417_37 = R[1];
-Obj v__3517668_37 = R[2];
+Obj v__3519197_37= co->res;
+Obj v__3517483_37 = R[1];
+Obj v__3517737_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3517417_37, v__3517668_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3517483_37, v__3517737_37);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_globals = R[1];
 Obj v_exp = R[2];
 R[1] = v_exp;
-saveCont(co, clofun111, 5, R);
+saveCont(co, clofun112, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_globals);
 return;
 }
 case 1:
 {
-Obj v__3519107_37= co->res;
+Obj v__3519191_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3519107_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3519191_37);
 return;
 }
 case 2:
 {
-Obj v__3519106_37= co->res;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3519106_37);
+Obj v__3519190_37= co->res;
+saveCont(co, clofun112, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3519190_37);
 return;
 }
 case 3:
 {
-Obj v__3519105_37= co->res;
-saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519105_37);
+Obj v__3519189_37= co->res;
+saveCont(co, clofun112, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519189_37);
 return;
 }
 case 4:
 {
-Obj v__3519104_37= co->res;
-saveCont(co, clofun111, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519104_37);
+Obj v__3519188_37= co->res;
+saveCont(co, clofun112, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519188_37);
 return;
 }
 case 5:
 {
-Obj v__3519103_37= co->res;
+Obj v__3519187_37= co->res;
 Obj v_exp = R[1];
-saveCont(co, clofun111, 4, R);
-coraCall1(co, v__3519103_37, v_exp);
+saveCont(co, clofun112, 4, R);
+coraCall1(co, v__3519187_37, v_exp);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun110, 2, R);
+saveCont(co, clofun111, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3519101_37= co->res;
-Obj v__3517665_37 = R[1];
-Obj v__3517666_37 = v__3519101_37;
+Obj v__3519185_37= co->res;
+Obj v__3517734_37 = R[1];
+Obj v__3517735_37 = v__3519185_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3517665_37, v__3517666_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3517734_37, v__3517735_37);
 return;
 }
 case 2:
 {
-Obj v__3519100_37= co->res;
+Obj v__3519184_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517665_37 = v__3519100_37;
-R[1] = v__3517665_37;
-saveCont(co, clofun110, 1, R);
+Obj v__3517734_37 = v__3519184_37;
+R[1] = v__3517734_37;
+saveCont(co, clofun111, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
 return;
 }
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517413_37 = R[1];
-Obj v__3517414_37 = R[2];
-Obj v__3519093_37 = PRIM_EQ(Nil, v__3517414_37);
-if (True == v__3519093_37) {
-coraReturn(co, v__3517413_37);
+Obj v__3517479_37 = R[1];
+Obj v__3517480_37 = R[2];
+Obj v__3519177_37 = PRIM_EQ(Nil, v__3517480_37);
+if (True == v__3519177_37) {
+coraReturn(co, v__3517479_37);
 return;
 } else {
-Obj v__3519094_37 = PRIM_ISCONS(v__3517414_37);
-if (True == v__3519094_37) {
-Obj v__3519095_37 = PRIM_CAR(v__3517414_37);
-Obj v__3517663_37 = v__3519095_37;
-Obj v__3519096_37 = PRIM_CDR(v__3517414_37);
-Obj v__3517664_37 = v__3519096_37;
-Obj v__3519097_37 = makeCons(co->gc, v__3517413_37, Nil);
-Obj v__3519098_37 = makeCons(co->gc, v__3517663_37, v__3519097_37);
+Obj v__3519178_37 = PRIM_ISCONS(v__3517480_37);
+if (True == v__3519178_37) {
+Obj v__3519179_37 = PRIM_CAR(v__3517480_37);
+Obj v__3517732_37 = v__3519179_37;
+Obj v__3519180_37 = PRIM_CDR(v__3517480_37);
+Obj v__3517733_37 = v__3519180_37;
+Obj v__3519181_37 = makeCons(co->gc, v__3517479_37, Nil);
+Obj v__3519182_37 = makeCons(co->gc, v__3517732_37, v__3519181_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3519098_37, v__3517664_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3519182_37, v__3517733_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2291,80 +2292,80 @@ return;
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun108, 6, R);
+saveCont(co, clofun109, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3519091_37= co->res;
-Obj v__3517660_37 = R[1];
+Obj v__3519175_37= co->res;
+Obj v__3517729_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517660_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517729_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3519090_37= co->res;
-Obj v__3517660_37 = R[1];
-Obj v__3517662_37 = v__3519090_37;
-R[1] = v__3517660_37;
-saveCont(co, clofun108, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517660_37, v__3517662_37);
+Obj v__3519174_37= co->res;
+Obj v__3517729_37 = R[1];
+Obj v__3517731_37 = v__3519174_37;
+R[1] = v__3517729_37;
+saveCont(co, clofun109, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517729_37, v__3517731_37);
 return;
 }
 case 3:
 {
-Obj v__3519089_37= co->res;
-Obj v__3517660_37 = R[1];
-Obj v__3517661_37 = v__3519089_37;
-R[1] = v__3517660_37;
-saveCont(co, clofun108, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3517661_37);
+Obj v__3519173_37= co->res;
+Obj v__3517729_37 = R[1];
+Obj v__3517730_37 = v__3519173_37;
+R[1] = v__3517729_37;
+saveCont(co, clofun109, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3517730_37);
 return;
 }
 case 4:
 {
-Obj v__3519088_37= co->res;
+Obj v__3519172_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517660_37 = R[2];
-R[1] = v__3517660_37;
-saveCont(co, clofun108, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517660_37, v_exp);
+Obj v__3517729_37 = R[2];
+R[1] = v__3517729_37;
+saveCont(co, clofun109, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517729_37, v_exp);
 return;
 }
 case 5:
 {
-Obj v__3519087_37= co->res;
+Obj v__3519171_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517660_37 = R[2];
+Obj v__3517729_37 = R[2];
 R[1] = v_exp;
-R[2] = v__3517660_37;
-saveCont(co, clofun108, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517660_37, MAKE_NUMBER(1), Nil);
+R[2] = v__3517729_37;
+saveCont(co, clofun109, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517729_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3519086_37= co->res;
+Obj v__3519170_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517660_37 = v__3519086_37;
+Obj v__3517729_37 = v__3519170_37;
 R[1] = v_exp;
-R[2] = v__3517660_37;
-saveCont(co, clofun108, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517660_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+R[2] = v__3517729_37;
+saveCont(co, clofun109, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517729_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2376,7 +2377,7 @@ return;
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2388,7 +2389,7 @@ return;
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2400,7 +2401,7 @@ return;
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2413,7 +2414,7 @@ return;
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2421,13 +2422,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_label;
 R[2] = v_w;
-saveCont(co, clofun103, 3, R);
+saveCont(co, clofun104, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3519080_37= co->res;
+Obj v__3519164_37= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, ")"));
@@ -2435,27 +2436,27 @@ return;
 }
 case 2:
 {
-Obj v__3519079_37= co->res;
+Obj v__3519163_37= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
-saveCont(co, clofun103, 1, R);
+saveCont(co, clofun104, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3519078_37= co->res;
+Obj v__3519162_37= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
-saveCont(co, clofun103, 2, R);
+saveCont(co, clofun104, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_w, v_label);
 return;
 }
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2463,13 +2464,13 @@ Obj v_w = R[1];
 Obj v_label = R[2];
 R[1] = v_w;
 R[2] = v_label;
-saveCont(co, clofun102, 1, R);
+saveCont(co, clofun103, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3519076_37= co->res;
+Obj v__3519160_37= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2479,146 +2480,146 @@ return;
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517407_37 = R[1];
-Obj v__3517408_37 = R[2];
-Obj v__3517409_37 = R[3];
-Obj v__3517410_37 = R[4];
-Obj v__3517411_37 = R[5];
-Obj v__3517656_37 = makeNative(co->gc, 1, clofun100, 0, 0);
-Obj v__3519054_37 = PRIM_ISCONS(v__3517411_37);
-if (True == v__3519054_37) {
-Obj v__3519055_37 = PRIM_CAR(v__3517411_37);
-Obj v__3519056_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3519055_37);
-if (True == v__3519056_37) {
-Obj v__3519057_37 = PRIM_CDR(v__3517411_37);
-Obj v__3519058_37 = PRIM_ISCONS(v__3519057_37);
-if (True == v__3519058_37) {
-Obj v__3519059_37 = PRIM_CDR(v__3517411_37);
-Obj v__3519060_37 = PRIM_CAR(v__3519059_37);
-Obj v__3517657_37 = v__3519060_37;
-Obj v__3519061_37 = PRIM_CDR(v__3517411_37);
-Obj v__3519062_37 = PRIM_CDR(v__3519061_37);
-Obj v__3519063_37 = PRIM_ISCONS(v__3519062_37);
-if (True == v__3519063_37) {
-Obj v__3519064_37 = PRIM_CDR(v__3517411_37);
-Obj v__3519065_37 = PRIM_CDR(v__3519064_37);
-Obj v__3519066_37 = PRIM_CAR(v__3519065_37);
-Obj v__3517658_37 = v__3519066_37;
-Obj v__3519067_37 = PRIM_CDR(v__3517411_37);
-Obj v__3519068_37 = PRIM_CDR(v__3519067_37);
-Obj v__3519069_37 = PRIM_CDR(v__3519068_37);
-Obj v__3517659_37 = v__3519069_37;
-R[1] = v__3517657_37;
-R[2] = v__3517659_37;
-R[3] = v__3517407_37;
-R[4] = v__3517408_37;
-R[5] = v__3517409_37;
-R[6] = v__3517410_37;
-R[7] = v__3517658_37;
-saveCont(co, clofun101, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517410_37, makeCString(co->gc, "Obj "));
+Obj v__3517473_37 = R[1];
+Obj v__3517474_37 = R[2];
+Obj v__3517475_37 = R[3];
+Obj v__3517476_37 = R[4];
+Obj v__3517477_37 = R[5];
+Obj v__3517725_37 = makeNative(co->gc, 1, clofun101, 0, 0);
+Obj v__3519138_37 = PRIM_ISCONS(v__3517477_37);
+if (True == v__3519138_37) {
+Obj v__3519139_37 = PRIM_CAR(v__3517477_37);
+Obj v__3519140_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3519139_37);
+if (True == v__3519140_37) {
+Obj v__3519141_37 = PRIM_CDR(v__3517477_37);
+Obj v__3519142_37 = PRIM_ISCONS(v__3519141_37);
+if (True == v__3519142_37) {
+Obj v__3519143_37 = PRIM_CDR(v__3517477_37);
+Obj v__3519144_37 = PRIM_CAR(v__3519143_37);
+Obj v__3517726_37 = v__3519144_37;
+Obj v__3519145_37 = PRIM_CDR(v__3517477_37);
+Obj v__3519146_37 = PRIM_CDR(v__3519145_37);
+Obj v__3519147_37 = PRIM_ISCONS(v__3519146_37);
+if (True == v__3519147_37) {
+Obj v__3519148_37 = PRIM_CDR(v__3517477_37);
+Obj v__3519149_37 = PRIM_CDR(v__3519148_37);
+Obj v__3519150_37 = PRIM_CAR(v__3519149_37);
+Obj v__3517727_37 = v__3519150_37;
+Obj v__3519151_37 = PRIM_CDR(v__3517477_37);
+Obj v__3519152_37 = PRIM_CDR(v__3519151_37);
+Obj v__3519153_37 = PRIM_CDR(v__3519152_37);
+Obj v__3517728_37 = v__3519153_37;
+R[1] = v__3517726_37;
+R[2] = v__3517728_37;
+R[3] = v__3517473_37;
+R[4] = v__3517474_37;
+R[5] = v__3517475_37;
+R[6] = v__3517476_37;
+R[7] = v__3517727_37;
+saveCont(co, clofun102, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517476_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517656_37);
+coraCall0(co, v__3517725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517656_37);
+coraCall0(co, v__3517725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517656_37);
+coraCall0(co, v__3517725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517656_37);
+coraCall0(co, v__3517725_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519074_37= co->res;
-Obj v__3517407_37 = R[1];
-Obj v__3517408_37 = R[2];
-Obj v__3517409_37 = R[3];
-Obj v__3517410_37 = R[4];
-Obj v__3517658_37 = R[5];
+Obj v__3519158_37= co->res;
+Obj v__3517473_37 = R[1];
+Obj v__3517474_37 = R[2];
+Obj v__3517475_37 = R[3];
+Obj v__3517476_37 = R[4];
+Obj v__3517727_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3517407_37, v__3517408_37, v__3517409_37, v__3517410_37, v__3517658_37};
+Obj __args[5] = {v__3517473_37, v__3517474_37, v__3517475_37, v__3517476_37, v__3517727_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3519073_37= co->res;
-Obj v__3517659_37 = R[1];
-Obj v__3517407_37 = R[2];
-Obj v__3517408_37 = R[3];
-Obj v__3517409_37 = R[4];
-Obj v__3517410_37 = R[5];
-Obj v__3517658_37 = R[6];
-R[1] = v__3517407_37;
-R[2] = v__3517408_37;
-R[3] = v__3517409_37;
-R[4] = v__3517410_37;
-R[5] = v__3517658_37;
-saveCont(co, clofun101, 1, R);
-Obj __args[5] = {v__3517407_37, v__3517408_37, v__3517409_37, v__3517410_37, v__3517659_37};
+Obj v__3519157_37= co->res;
+Obj v__3517728_37 = R[1];
+Obj v__3517473_37 = R[2];
+Obj v__3517474_37 = R[3];
+Obj v__3517475_37 = R[4];
+Obj v__3517476_37 = R[5];
+Obj v__3517727_37 = R[6];
+R[1] = v__3517473_37;
+R[2] = v__3517474_37;
+R[3] = v__3517475_37;
+R[4] = v__3517476_37;
+R[5] = v__3517727_37;
+saveCont(co, clofun102, 1, R);
+Obj __args[5] = {v__3517473_37, v__3517474_37, v__3517475_37, v__3517476_37, v__3517728_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519072_37= co->res;
-Obj v__3517659_37 = R[1];
-Obj v__3517407_37 = R[2];
-Obj v__3517408_37 = R[3];
-Obj v__3517409_37 = R[4];
-Obj v__3517410_37 = R[5];
-Obj v__3517658_37 = R[6];
-R[1] = v__3517659_37;
-R[2] = v__3517407_37;
-R[3] = v__3517408_37;
-R[4] = v__3517409_37;
-R[5] = v__3517410_37;
-R[6] = v__3517658_37;
-saveCont(co, clofun101, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517410_37, makeCString(co->gc, "= co->res;\n"));
+Obj v__3519156_37= co->res;
+Obj v__3517728_37 = R[1];
+Obj v__3517473_37 = R[2];
+Obj v__3517474_37 = R[3];
+Obj v__3517475_37 = R[4];
+Obj v__3517476_37 = R[5];
+Obj v__3517727_37 = R[6];
+R[1] = v__3517728_37;
+R[2] = v__3517473_37;
+R[3] = v__3517474_37;
+R[4] = v__3517475_37;
+R[5] = v__3517476_37;
+R[6] = v__3517727_37;
+saveCont(co, clofun102, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517476_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3519070_37= co->res;
-Obj v__3517657_37 = R[1];
-Obj v__3517659_37 = R[2];
-Obj v__3517407_37 = R[3];
-Obj v__3517408_37 = R[4];
-Obj v__3517409_37 = R[5];
-Obj v__3517410_37 = R[6];
-Obj v__3517658_37 = R[7];
-Obj v__3519071_37 = PRIM_CAR(v__3517657_37);
-R[1] = v__3517659_37;
-R[2] = v__3517407_37;
-R[3] = v__3517408_37;
-R[4] = v__3517409_37;
-R[5] = v__3517410_37;
-R[6] = v__3517658_37;
-saveCont(co, clofun101, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3517410_37, v__3519071_37);
+Obj v__3519154_37= co->res;
+Obj v__3517726_37 = R[1];
+Obj v__3517728_37 = R[2];
+Obj v__3517473_37 = R[3];
+Obj v__3517474_37 = R[4];
+Obj v__3517475_37 = R[5];
+Obj v__3517476_37 = R[6];
+Obj v__3517727_37 = R[7];
+Obj v__3519155_37 = PRIM_CAR(v__3517726_37);
+R[1] = v__3517728_37;
+R[2] = v__3517473_37;
+R[3] = v__3517474_37;
+R[4] = v__3517475_37;
+R[5] = v__3517476_37;
+R[6] = v__3517727_37;
+saveCont(co, clofun102, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3517476_37, v__3519155_37);
 return;
 }
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2629,7 +2630,7 @@ return;
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2638,44 +2639,44 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v__3519040_37 = primGenSym(co);
-Obj v__3517653_37 = v__3519040_37;
-Obj v__3519051_37 = primSet(co, v__3517653_37, makeNative(co->gc, 2, clofun98, 1, 5, v_globals, v_self, v_env, v_w, v__3517653_37));
+Obj v__3519124_37 = primGenSym(co);
+Obj v__3517722_37 = v__3519124_37;
+Obj v__3519135_37 = primSet(co, v__3517722_37, makeNative(co->gc, 2, clofun99, 1, 5, v_globals, v_self, v_env, v_w, v__3517722_37));
 R[1] = v_l;
-saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517653_37);
+saveCont(co, clofun100, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517722_37);
 return;
 }
 case 1:
 {
-Obj v__3519052_37= co->res;
+Obj v__3519136_37= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519052_37, v_l);
+coraCall1(co, v__3519136_37, v_l);
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3519041_37 = PRIM_EQ(Nil, v_x);
-if (True == v__3519041_37) {
+Obj v__3519125_37 = PRIM_EQ(Nil, v_x);
+if (True == v__3519125_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519042_37 = PRIM_ISCONS(v_x);
-if (True == v__3519042_37) {
-Obj v__3519043_37 = PRIM_CAR(v_x);
-Obj v__3517654_37 = v__3519043_37;
-Obj v__3519044_37 = PRIM_CDR(v_x);
-Obj v__3517655_37 = v__3519044_37;
-R[1] = v__3517655_37;
-saveCont(co, clofun98, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517654_37};
+Obj v__3519126_37 = PRIM_ISCONS(v_x);
+if (True == v__3519126_37) {
+Obj v__3519127_37 = PRIM_CAR(v_x);
+Obj v__3517723_37 = v__3519127_37;
+Obj v__3519128_37 = PRIM_CDR(v_x);
+Obj v__3517724_37 = v__3519128_37;
+R[1] = v__3517724_37;
+saveCont(co, clofun99, 5, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517723_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2687,60 +2688,60 @@ return;
 }
 case 1:
 {
-Obj v__3519049_37= co->res;
-Obj v__3517655_37 = R[1];
+Obj v__3519133_37= co->res;
+Obj v__3517724_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519049_37, v__3517655_37);
+coraCall1(co, v__3519133_37, v__3517724_37);
 return;
 }
 case 2:
 {
-Obj v__3519048_37= co->res;
-Obj v__3517655_37 = R[1];
-R[1] = v__3517655_37;
-saveCont(co, clofun98, 1, R);
+Obj v__3519132_37= co->res;
+Obj v__3517724_37 = R[1];
+R[1] = v__3517724_37;
+saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519050_37= co->res;
-Obj v__3517655_37 = R[1];
+Obj v__3519134_37= co->res;
+Obj v__3517724_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519050_37, v__3517655_37);
+coraCall1(co, v__3519134_37, v__3517724_37);
 return;
 }
 case 4:
 {
-Obj v__3519046_37= co->res;
-Obj v__3517655_37 = R[1];
-Obj v__3519047_37 = primNot(v__3519046_37);
-if (True == v__3519047_37) {
-R[1] = v__3517655_37;
-saveCont(co, clofun98, 2, R);
+Obj v__3519130_37= co->res;
+Obj v__3517724_37 = R[1];
+Obj v__3519131_37 = primNot(v__3519130_37);
+if (True == v__3519131_37) {
+R[1] = v__3517724_37;
+saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3517655_37;
-saveCont(co, clofun98, 3, R);
+R[1] = v__3517724_37;
+saveCont(co, clofun99, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v__3519045_37= co->res;
-Obj v__3517655_37 = R[1];
-R[1] = v__3517655_37;
-saveCont(co, clofun98, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517655_37);
+Obj v__3519129_37= co->res;
+Obj v__3517724_37 = R[1];
+R[1] = v__3517724_37;
+saveCont(co, clofun99, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517724_37);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2749,312 +2750,312 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v__3518753_37 = primGenSym(co);
-Obj v__3517616_37 = v__3518753_37;
-Obj v__3519037_37 = primSet(co, v__3517616_37, makeNative(co->gc, 3, clofun96, 2, 4, v_self, v__3517616_37, v_globals, v_w));
+Obj v__3518837_37 = primGenSym(co);
+Obj v__3517685_37 = v__3518837_37;
+Obj v__3519121_37 = primSet(co, v__3517685_37, makeNative(co->gc, 3, clofun97, 2, 4, v_self, v__3517685_37, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
-saveCont(co, clofun97, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517616_37);
+saveCont(co, clofun98, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517685_37);
 return;
 }
 case 1:
 {
-Obj v__3519038_37= co->res;
+Obj v__3519122_37= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519038_37, v_x1, v_env1);
+coraCall2(co, v__3519122_37, v_x1, v_env1);
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v__3518754_37 = primIsSymbol(v_x2);
-if (True == v__3518754_37) {
+Obj v__3518838_37 = primIsSymbol(v_x2);
+if (True == v__3518838_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v__3517617_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v__3519024_37 = PRIM_ISCONS(v_x2);
-if (True == v__3519024_37) {
-Obj v__3519025_37 = PRIM_CAR(v_x2);
-Obj v__3519026_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3519025_37);
-if (True == v__3519026_37) {
-Obj v__3519027_37 = PRIM_CDR(v_x2);
-Obj v__3519028_37 = PRIM_ISCONS(v__3519027_37);
-if (True == v__3519028_37) {
-Obj v__3519029_37 = PRIM_CDR(v_x2);
-Obj v__3519030_37 = PRIM_CAR(v__3519029_37);
-Obj v__3517652_37 = v__3519030_37;
-Obj v__3519031_37 = PRIM_CDR(v_x2);
-Obj v__3519032_37 = PRIM_CDR(v__3519031_37);
-Obj v__3519033_37 = PRIM_EQ(Nil, v__3519032_37);
-if (True == v__3519033_37) {
-R[1] = v__3517652_37;
-saveCont(co, clofun96, 3, R);
+Obj v__3517686_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v__3519108_37 = PRIM_ISCONS(v_x2);
+if (True == v__3519108_37) {
+Obj v__3519109_37 = PRIM_CAR(v_x2);
+Obj v__3519110_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3519109_37);
+if (True == v__3519110_37) {
+Obj v__3519111_37 = PRIM_CDR(v_x2);
+Obj v__3519112_37 = PRIM_ISCONS(v__3519111_37);
+if (True == v__3519112_37) {
+Obj v__3519113_37 = PRIM_CDR(v_x2);
+Obj v__3519114_37 = PRIM_CAR(v__3519113_37);
+Obj v__3517721_37 = v__3519114_37;
+Obj v__3519115_37 = PRIM_CDR(v_x2);
+Obj v__3519116_37 = PRIM_CDR(v__3519115_37);
+Obj v__3519117_37 = PRIM_EQ(Nil, v__3519116_37);
+if (True == v__3519117_37) {
+R[1] = v__3517721_37;
+saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3517686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3517686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3517686_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3517686_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519036_37= co->res;
+Obj v__3519120_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3519035_37= co->res;
-saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519035_37);
+Obj v__3519119_37= co->res;
+saveCont(co, clofun97, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519119_37);
 return;
 }
 case 3:
 {
-Obj v__3519034_37= co->res;
-Obj v__3517652_37 = R[1];
-saveCont(co, clofun96, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517652_37, closureRef(R[0], 2));
+Obj v__3519118_37= co->res;
+Obj v__3517721_37 = R[1];
+saveCont(co, clofun97, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517721_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517618_37 = makeNative(co->gc, 2, clofun94, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3519012_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3519012_37) {
-Obj v__3519013_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3519014_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3519013_37);
-if (True == v__3519014_37) {
-Obj v__3519015_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519016_37 = PRIM_ISCONS(v__3519015_37);
-if (True == v__3519016_37) {
-Obj v__3519017_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519018_37 = PRIM_CAR(v__3519017_37);
-Obj v__3517651_37 = v__3519018_37;
-Obj v__3519019_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519020_37 = PRIM_CDR(v__3519019_37);
-Obj v__3519021_37 = PRIM_EQ(Nil, v__3519020_37);
-if (True == v__3519021_37) {
-R[1] = v__3517651_37;
-saveCont(co, clofun95, 2, R);
+Obj v__3517687_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3519096_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3519096_37) {
+Obj v__3519097_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3519098_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3519097_37);
+if (True == v__3519098_37) {
+Obj v__3519099_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519100_37 = PRIM_ISCONS(v__3519099_37);
+if (True == v__3519100_37) {
+Obj v__3519101_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519102_37 = PRIM_CAR(v__3519101_37);
+Obj v__3517720_37 = v__3519102_37;
+Obj v__3519103_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519104_37 = PRIM_CDR(v__3519103_37);
+Obj v__3519105_37 = PRIM_EQ(Nil, v__3519104_37);
+if (True == v__3519105_37) {
+R[1] = v__3517720_37;
+saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517618_37);
+coraCall0(co, v__3517687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517618_37);
+coraCall0(co, v__3517687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517618_37);
+coraCall0(co, v__3517687_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517618_37);
+coraCall0(co, v__3517687_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519023_37= co->res;
+Obj v__3519107_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519022_37= co->res;
-Obj v__3517651_37 = R[1];
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517651_37);
+Obj v__3519106_37= co->res;
+Obj v__3517720_37 = R[1];
+saveCont(co, clofun96, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517720_37);
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517619_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518988_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3518988_37) {
-Obj v__3518989_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3518990_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518989_37);
-if (True == v__3518990_37) {
-Obj v__3518991_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3518992_37 = PRIM_ISCONS(v__3518991_37);
-if (True == v__3518992_37) {
-Obj v__3518993_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3518994_37 = PRIM_CAR(v__3518993_37);
-Obj v__3517650_37 = v__3518994_37;
-Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
-Obj v__3518997_37 = PRIM_EQ(Nil, v__3518996_37);
-if (True == v__3518997_37) {
-Obj v__3518998_37 = primIsSymbol(v__3517650_37);
-if (True == v__3518998_37) {
-R[1] = v__3517650_37;
-saveCont(co, clofun94, 3, R);
+Obj v__3517688_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3519072_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3519072_37) {
+Obj v__3519073_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3519074_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3519073_37);
+if (True == v__3519074_37) {
+Obj v__3519075_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519076_37 = PRIM_ISCONS(v__3519075_37);
+if (True == v__3519076_37) {
+Obj v__3519077_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519078_37 = PRIM_CAR(v__3519077_37);
+Obj v__3517719_37 = v__3519078_37;
+Obj v__3519079_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519080_37 = PRIM_CDR(v__3519079_37);
+Obj v__3519081_37 = PRIM_EQ(Nil, v__3519080_37);
+if (True == v__3519081_37) {
+Obj v__3519082_37 = primIsSymbol(v__3517719_37);
+if (True == v__3519082_37) {
+R[1] = v__3517719_37;
+saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3517650_37;
-saveCont(co, clofun94, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517650_37);
+R[1] = v__3517719_37;
+saveCont(co, clofun95, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517719_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3517688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3517688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3517688_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3517688_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519001_37= co->res;
+Obj v__3519085_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3519000_37= co->res;
-saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519000_37);
+Obj v__3519084_37= co->res;
+saveCont(co, clofun95, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519084_37);
 return;
 }
 case 3:
 {
-Obj v__3518999_37= co->res;
-Obj v__3517650_37 = R[1];
-saveCont(co, clofun94, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517650_37, closureRef(R[0], 4));
+Obj v__3519083_37= co->res;
+Obj v__3517719_37 = R[1];
+saveCont(co, clofun95, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517719_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3519004_37= co->res;
+Obj v__3519088_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3519003_37= co->res;
-Obj v__3517650_37 = R[1];
-saveCont(co, clofun94, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517650_37);
+Obj v__3519087_37= co->res;
+Obj v__3517719_37 = R[1];
+saveCont(co, clofun95, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517719_37);
 return;
 }
 case 6:
 {
-Obj v__3519008_37= co->res;
+Obj v__3519092_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3519007_37= co->res;
-saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519007_37);
+Obj v__3519091_37= co->res;
+saveCont(co, clofun95, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519091_37);
 return;
 }
 case 8:
 {
-Obj v__3519006_37= co->res;
-Obj v__3517650_37 = R[1];
-saveCont(co, clofun94, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3517650_37);
+Obj v__3519090_37= co->res;
+Obj v__3517719_37 = R[1];
+saveCont(co, clofun95, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3517719_37);
 return;
 }
 case 9:
 {
-Obj v__3519002_37= co->res;
-Obj v__3517650_37 = R[1];
-if (True == v__3519002_37) {
-R[1] = v__3517650_37;
-saveCont(co, clofun94, 5, R);
+Obj v__3519086_37= co->res;
+Obj v__3517719_37 = R[1];
+if (True == v__3519086_37) {
+R[1] = v__3517719_37;
+saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3519005_37 = primIsString(v__3517650_37);
-if (True == v__3519005_37) {
-R[1] = v__3517650_37;
-saveCont(co, clofun94, 8, R);
+Obj v__3519089_37 = primIsString(v__3517719_37);
+if (True == v__3519089_37) {
+R[1] = v__3517719_37;
+saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3519009_37 = PRIM_EQ(v__3517650_37, Nil);
-if (True == v__3519009_37) {
+Obj v__3519093_37 = PRIM_EQ(v__3517719_37, Nil);
+if (True == v__3519093_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3519010_37 = PRIM_EQ(v__3517650_37, True);
-if (True == v__3519010_37) {
+Obj v__3519094_37 = PRIM_EQ(v__3517719_37, True);
+if (True == v__3519094_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3519011_37 = PRIM_EQ(v__3517650_37, False);
-if (True == v__3519011_37) {
+Obj v__3519095_37 = PRIM_EQ(v__3517719_37, False);
+if (True == v__3519095_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3071,334 +3072,334 @@ return;
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517620_37 = makeNative(co->gc, 3, clofun92, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3518953_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518953_37) {
-Obj v__3518954_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518955_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518954_37);
-if (True == v__3518955_37) {
-Obj v__3518956_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518957_37 = PRIM_ISCONS(v__3518956_37);
-if (True == v__3518957_37) {
-Obj v__3518958_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518959_37 = PRIM_CAR(v__3518958_37);
-Obj v__3517647_37 = v__3518959_37;
-Obj v__3518960_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518961_37 = PRIM_CDR(v__3518960_37);
-Obj v__3518962_37 = PRIM_ISCONS(v__3518961_37);
-if (True == v__3518962_37) {
-Obj v__3518963_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518964_37 = PRIM_CDR(v__3518963_37);
-Obj v__3518965_37 = PRIM_CAR(v__3518964_37);
-Obj v__3517648_37 = v__3518965_37;
-Obj v__3518966_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518967_37 = PRIM_CDR(v__3518966_37);
-Obj v__3518968_37 = PRIM_CDR(v__3518967_37);
-Obj v__3518969_37 = PRIM_ISCONS(v__3518968_37);
-if (True == v__3518969_37) {
-Obj v__3518970_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518971_37 = PRIM_CDR(v__3518970_37);
-Obj v__3518972_37 = PRIM_CDR(v__3518971_37);
-Obj v__3518973_37 = PRIM_CAR(v__3518972_37);
-Obj v__3517649_37 = v__3518973_37;
-Obj v__3518974_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518975_37 = PRIM_CDR(v__3518974_37);
-Obj v__3518976_37 = PRIM_CDR(v__3518975_37);
-Obj v__3518977_37 = PRIM_CDR(v__3518976_37);
-Obj v__3518978_37 = PRIM_EQ(Nil, v__3518977_37);
-if (True == v__3518978_37) {
-R[1] = v__3517648_37;
-R[2] = v__3517647_37;
-R[3] = v__3517649_37;
-saveCont(co, clofun93, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517647_37, closureRef(R[0], 5));
+Obj v__3517689_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3519037_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3519037_37) {
+Obj v__3519038_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3519039_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3519038_37);
+if (True == v__3519039_37) {
+Obj v__3519040_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519041_37 = PRIM_ISCONS(v__3519040_37);
+if (True == v__3519041_37) {
+Obj v__3519042_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519043_37 = PRIM_CAR(v__3519042_37);
+Obj v__3517716_37 = v__3519043_37;
+Obj v__3519044_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519045_37 = PRIM_CDR(v__3519044_37);
+Obj v__3519046_37 = PRIM_ISCONS(v__3519045_37);
+if (True == v__3519046_37) {
+Obj v__3519047_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519048_37 = PRIM_CDR(v__3519047_37);
+Obj v__3519049_37 = PRIM_CAR(v__3519048_37);
+Obj v__3517717_37 = v__3519049_37;
+Obj v__3519050_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519051_37 = PRIM_CDR(v__3519050_37);
+Obj v__3519052_37 = PRIM_CDR(v__3519051_37);
+Obj v__3519053_37 = PRIM_ISCONS(v__3519052_37);
+if (True == v__3519053_37) {
+Obj v__3519054_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519055_37 = PRIM_CDR(v__3519054_37);
+Obj v__3519056_37 = PRIM_CDR(v__3519055_37);
+Obj v__3519057_37 = PRIM_CAR(v__3519056_37);
+Obj v__3517718_37 = v__3519057_37;
+Obj v__3519058_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519059_37 = PRIM_CDR(v__3519058_37);
+Obj v__3519060_37 = PRIM_CDR(v__3519059_37);
+Obj v__3519061_37 = PRIM_CDR(v__3519060_37);
+Obj v__3519062_37 = PRIM_EQ(Nil, v__3519061_37);
+if (True == v__3519062_37) {
+R[1] = v__3517717_37;
+R[2] = v__3517716_37;
+R[3] = v__3517718_37;
+saveCont(co, clofun94, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517716_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3517689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3517689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3517689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3517689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3517689_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3517689_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518986_37= co->res;
-Obj v__3517647_37 = R[1];
-Obj v__3517649_37 = R[2];
-Obj v__3518987_37 = makeCons(co->gc, v__3517647_37, closureRef(R[0], 5));
+Obj v__3519070_37= co->res;
+Obj v__3517716_37 = R[1];
+Obj v__3517718_37 = R[2];
+Obj v__3519071_37 = makeCons(co->gc, v__3517716_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3518986_37, v__3517649_37, v__3518987_37);
+coraCall2(co, v__3519070_37, v__3517718_37, v__3519071_37);
 return;
 }
 case 2:
 {
-Obj v__3518985_37= co->res;
-Obj v__3517647_37 = R[1];
-Obj v__3517649_37 = R[2];
-R[1] = v__3517647_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun93, 1, R);
+Obj v__3519069_37= co->res;
+Obj v__3517716_37 = R[1];
+Obj v__3517718_37 = R[2];
+R[1] = v__3517716_37;
+R[2] = v__3517718_37;
+saveCont(co, clofun94, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518984_37= co->res;
-Obj v__3517647_37 = R[1];
-Obj v__3517649_37 = R[2];
-R[1] = v__3517647_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun93, 2, R);
+Obj v__3519068_37= co->res;
+Obj v__3517716_37 = R[1];
+Obj v__3517718_37 = R[2];
+R[1] = v__3517716_37;
+R[2] = v__3517718_37;
+saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3518983_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3517649_37 = R[3];
-R[1] = v__3517647_37;
-R[2] = v__3517649_37;
-saveCont(co, clofun93, 3, R);
-coraCall2(co, v__3518983_37, v__3517648_37, closureRef(R[0], 5));
+Obj v__3519067_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517716_37 = R[2];
+Obj v__3517718_37 = R[3];
+R[1] = v__3517716_37;
+R[2] = v__3517718_37;
+saveCont(co, clofun94, 3, R);
+coraCall2(co, v__3519067_37, v__3517717_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3518982_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3517649_37 = R[3];
-R[1] = v__3517648_37;
-R[2] = v__3517647_37;
-R[3] = v__3517649_37;
-saveCont(co, clofun93, 4, R);
+Obj v__3519066_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517716_37 = R[2];
+Obj v__3517718_37 = R[3];
+R[1] = v__3517717_37;
+R[2] = v__3517716_37;
+R[3] = v__3517718_37;
+saveCont(co, clofun94, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3518981_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3517649_37 = R[3];
-R[1] = v__3517648_37;
-R[2] = v__3517647_37;
-R[3] = v__3517649_37;
-saveCont(co, clofun93, 5, R);
+Obj v__3519065_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517716_37 = R[2];
+Obj v__3517718_37 = R[3];
+R[1] = v__3517717_37;
+R[2] = v__3517716_37;
+R[3] = v__3517718_37;
+saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3518980_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3517649_37 = R[3];
-R[1] = v__3517648_37;
-R[2] = v__3517647_37;
-R[3] = v__3517649_37;
-saveCont(co, clofun93, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3517647_37);
+Obj v__3519064_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517716_37 = R[2];
+Obj v__3517718_37 = R[3];
+R[1] = v__3517717_37;
+R[2] = v__3517716_37;
+R[3] = v__3517718_37;
+saveCont(co, clofun94, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3517716_37);
 return;
 }
 case 8:
 {
-Obj v__3518979_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3517647_37 = R[2];
-Obj v__3517649_37 = R[3];
-R[1] = v__3517648_37;
-R[2] = v__3517647_37;
-R[3] = v__3517649_37;
-saveCont(co, clofun93, 7, R);
+Obj v__3519063_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517716_37 = R[2];
+Obj v__3517718_37 = R[3];
+R[1] = v__3517717_37;
+R[2] = v__3517716_37;
+R[3] = v__3517718_37;
+saveCont(co, clofun94, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517621_37 = makeNative(co->gc, 4, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518923_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518923_37) {
-Obj v__3518924_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518925_37 = PRIM_ISCONS(v__3518924_37);
-if (True == v__3518925_37) {
-Obj v__3518926_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518927_37 = PRIM_CAR(v__3518926_37);
-Obj v__3518928_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518927_37);
-if (True == v__3518928_37) {
-Obj v__3518929_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518930_37 = PRIM_CDR(v__3518929_37);
-Obj v__3518931_37 = PRIM_ISCONS(v__3518930_37);
-if (True == v__3518931_37) {
-Obj v__3518932_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518933_37 = PRIM_CDR(v__3518932_37);
-Obj v__3518934_37 = PRIM_CAR(v__3518933_37);
-Obj v__3517645_37 = v__3518934_37;
-Obj v__3518935_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518936_37 = PRIM_CDR(v__3518935_37);
-Obj v__3518937_37 = PRIM_CDR(v__3518936_37);
-Obj v__3518938_37 = PRIM_EQ(Nil, v__3518937_37);
-if (True == v__3518938_37) {
-Obj v__3518939_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3517646_37 = v__3518939_37;
-R[1] = v__3517645_37;
-R[2] = v__3517646_37;
-saveCont(co, clofun92, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517645_37);
+Obj v__3517690_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3519007_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3519007_37) {
+Obj v__3519008_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519009_37 = PRIM_ISCONS(v__3519008_37);
+if (True == v__3519009_37) {
+Obj v__3519010_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519011_37 = PRIM_CAR(v__3519010_37);
+Obj v__3519012_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3519011_37);
+if (True == v__3519012_37) {
+Obj v__3519013_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519014_37 = PRIM_CDR(v__3519013_37);
+Obj v__3519015_37 = PRIM_ISCONS(v__3519014_37);
+if (True == v__3519015_37) {
+Obj v__3519016_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
+Obj v__3519018_37 = PRIM_CAR(v__3519017_37);
+Obj v__3517714_37 = v__3519018_37;
+Obj v__3519019_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519020_37 = PRIM_CDR(v__3519019_37);
+Obj v__3519021_37 = PRIM_CDR(v__3519020_37);
+Obj v__3519022_37 = PRIM_EQ(Nil, v__3519021_37);
+if (True == v__3519022_37) {
+Obj v__3519023_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3517715_37 = v__3519023_37;
+R[1] = v__3517714_37;
+R[2] = v__3517715_37;
+saveCont(co, clofun93, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517714_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3517690_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518944_37= co->res;
+Obj v__3519028_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3518943_37= co->res;
-Obj v__3517646_37 = R[1];
-saveCont(co, clofun92, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
+Obj v__3519027_37= co->res;
+Obj v__3517715_37 = R[1];
+saveCont(co, clofun93, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3518947_37= co->res;
+Obj v__3519031_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3518946_37= co->res;
-Obj v__3517646_37 = R[1];
-saveCont(co, clofun92, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
+Obj v__3519030_37= co->res;
+Obj v__3517715_37 = R[1];
+saveCont(co, clofun93, 3, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3518950_37= co->res;
+Obj v__3519034_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3518949_37= co->res;
-Obj v__3517646_37 = R[1];
-saveCont(co, clofun92, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
+Obj v__3519033_37= co->res;
+Obj v__3517715_37 = R[1];
+saveCont(co, clofun93, 5, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3518952_37= co->res;
+Obj v__3519036_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3518951_37= co->res;
-Obj v__3517646_37 = R[1];
-saveCont(co, clofun92, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517646_37};
+Obj v__3519035_37= co->res;
+Obj v__3517715_37 = R[1];
+saveCont(co, clofun93, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518941_37= co->res;
-Obj v__3517645_37 = R[1];
-Obj v__3517646_37 = R[2];
-Obj v__3518942_37 = PRIM_EQ(v__3517645_37, getBinding(co, packageID, 121).name);
-if (True == v__3518942_37) {
-R[1] = v__3517646_37;
-saveCont(co, clofun92, 2, R);
+Obj v__3519025_37= co->res;
+Obj v__3517714_37 = R[1];
+Obj v__3517715_37 = R[2];
+Obj v__3519026_37 = PRIM_EQ(v__3517714_37, getBinding(co, packageID, 121).name);
+if (True == v__3519026_37) {
+R[1] = v__3517715_37;
+saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3518945_37 = PRIM_EQ(v__3517645_37, getBinding(co, packageID, 109).name);
-if (True == v__3518945_37) {
-R[1] = v__3517646_37;
-saveCont(co, clofun92, 4, R);
+Obj v__3519029_37 = PRIM_EQ(v__3517714_37, getBinding(co, packageID, 109).name);
+if (True == v__3519029_37) {
+R[1] = v__3517715_37;
+saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3518948_37 = PRIM_EQ(v__3517645_37, getBinding(co, packageID, 118).name);
-if (True == v__3518948_37) {
-R[1] = v__3517646_37;
-saveCont(co, clofun92, 6, R);
+Obj v__3519032_37 = PRIM_EQ(v__3517714_37, getBinding(co, packageID, 118).name);
+if (True == v__3519032_37) {
+R[1] = v__3517715_37;
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3517646_37;
-saveCont(co, clofun92, 8, R);
+R[1] = v__3517715_37;
+saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3407,284 +3408,284 @@ return;
 }
 case 10:
 {
-Obj v__3518940_37= co->res;
-Obj v__3517645_37 = R[1];
-Obj v__3517646_37 = R[2];
-R[1] = v__3517645_37;
-R[2] = v__3517646_37;
-saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3518940_37);
+Obj v__3519024_37= co->res;
+Obj v__3517714_37 = R[1];
+Obj v__3517715_37 = R[2];
+R[1] = v__3517714_37;
+R[2] = v__3517715_37;
+saveCont(co, clofun93, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519024_37);
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517622_37 = makeNative(co->gc, 5, clofun90, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518888_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518888_37) {
-Obj v__3518889_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518890_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518889_37);
-if (True == v__3518890_37) {
-Obj v__3518891_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518892_37 = PRIM_ISCONS(v__3518891_37);
-if (True == v__3518892_37) {
-Obj v__3518893_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518894_37 = PRIM_CAR(v__3518893_37);
-Obj v__3517642_37 = v__3518894_37;
-Obj v__3518895_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518896_37 = PRIM_CDR(v__3518895_37);
-Obj v__3518897_37 = PRIM_ISCONS(v__3518896_37);
-if (True == v__3518897_37) {
-Obj v__3518898_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518899_37 = PRIM_CDR(v__3518898_37);
-Obj v__3518900_37 = PRIM_CAR(v__3518899_37);
-Obj v__3517643_37 = v__3518900_37;
-Obj v__3518901_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518902_37 = PRIM_CDR(v__3518901_37);
-Obj v__3518903_37 = PRIM_CDR(v__3518902_37);
-Obj v__3518904_37 = PRIM_ISCONS(v__3518903_37);
-if (True == v__3518904_37) {
-Obj v__3518905_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518906_37 = PRIM_CDR(v__3518905_37);
-Obj v__3518907_37 = PRIM_CDR(v__3518906_37);
-Obj v__3518908_37 = PRIM_CAR(v__3518907_37);
-Obj v__3517644_37 = v__3518908_37;
-Obj v__3518909_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518910_37 = PRIM_CDR(v__3518909_37);
-Obj v__3518911_37 = PRIM_CDR(v__3518910_37);
-Obj v__3518912_37 = PRIM_CDR(v__3518911_37);
-Obj v__3518913_37 = PRIM_EQ(Nil, v__3518912_37);
-if (True == v__3518913_37) {
-R[1] = v__3517642_37;
-R[2] = v__3517643_37;
-R[3] = v__3517644_37;
-saveCont(co, clofun91, 9, R);
+Obj v__3517691_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518972_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518972_37) {
+Obj v__3518973_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518974_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518973_37);
+if (True == v__3518974_37) {
+Obj v__3518975_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518976_37 = PRIM_ISCONS(v__3518975_37);
+if (True == v__3518976_37) {
+Obj v__3518977_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518978_37 = PRIM_CAR(v__3518977_37);
+Obj v__3517711_37 = v__3518978_37;
+Obj v__3518979_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518980_37 = PRIM_CDR(v__3518979_37);
+Obj v__3518981_37 = PRIM_ISCONS(v__3518980_37);
+if (True == v__3518981_37) {
+Obj v__3518982_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518983_37 = PRIM_CDR(v__3518982_37);
+Obj v__3518984_37 = PRIM_CAR(v__3518983_37);
+Obj v__3517712_37 = v__3518984_37;
+Obj v__3518985_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518986_37 = PRIM_CDR(v__3518985_37);
+Obj v__3518987_37 = PRIM_CDR(v__3518986_37);
+Obj v__3518988_37 = PRIM_ISCONS(v__3518987_37);
+if (True == v__3518988_37) {
+Obj v__3518989_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518990_37 = PRIM_CDR(v__3518989_37);
+Obj v__3518991_37 = PRIM_CDR(v__3518990_37);
+Obj v__3518992_37 = PRIM_CAR(v__3518991_37);
+Obj v__3517713_37 = v__3518992_37;
+Obj v__3518993_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518994_37 = PRIM_CDR(v__3518993_37);
+Obj v__3518995_37 = PRIM_CDR(v__3518994_37);
+Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
+Obj v__3518997_37 = PRIM_EQ(Nil, v__3518996_37);
+if (True == v__3518997_37) {
+R[1] = v__3517711_37;
+R[2] = v__3517712_37;
+R[3] = v__3517713_37;
+saveCont(co, clofun92, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517691_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518922_37= co->res;
+Obj v__3519006_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3518921_37= co->res;
-Obj v__3517644_37 = R[1];
-saveCont(co, clofun91, 1, R);
-coraCall2(co, v__3518921_37, v__3517644_37, closureRef(R[0], 4));
+Obj v__3519005_37= co->res;
+Obj v__3517713_37 = R[1];
+saveCont(co, clofun92, 1, R);
+coraCall2(co, v__3519005_37, v__3517713_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518920_37= co->res;
-Obj v__3517644_37 = R[1];
-R[1] = v__3517644_37;
-saveCont(co, clofun91, 2, R);
+Obj v__3519004_37= co->res;
+Obj v__3517713_37 = R[1];
+R[1] = v__3517713_37;
+saveCont(co, clofun92, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518919_37= co->res;
-Obj v__3517644_37 = R[1];
-R[1] = v__3517644_37;
-saveCont(co, clofun91, 3, R);
+Obj v__3519003_37= co->res;
+Obj v__3517713_37 = R[1];
+R[1] = v__3517713_37;
+saveCont(co, clofun92, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3518918_37= co->res;
-Obj v__3517643_37 = R[1];
-Obj v__3517644_37 = R[2];
-R[1] = v__3517644_37;
-saveCont(co, clofun91, 4, R);
-coraCall2(co, v__3518918_37, v__3517643_37, closureRef(R[0], 4));
+Obj v__3519002_37= co->res;
+Obj v__3517712_37 = R[1];
+Obj v__3517713_37 = R[2];
+R[1] = v__3517713_37;
+saveCont(co, clofun92, 4, R);
+coraCall2(co, v__3519002_37, v__3517712_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3518917_37= co->res;
-Obj v__3517643_37 = R[1];
-Obj v__3517644_37 = R[2];
-R[1] = v__3517643_37;
-R[2] = v__3517644_37;
-saveCont(co, clofun91, 5, R);
+Obj v__3519001_37= co->res;
+Obj v__3517712_37 = R[1];
+Obj v__3517713_37 = R[2];
+R[1] = v__3517712_37;
+R[2] = v__3517713_37;
+saveCont(co, clofun92, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3518916_37= co->res;
-Obj v__3517643_37 = R[1];
-Obj v__3517644_37 = R[2];
-R[1] = v__3517643_37;
-R[2] = v__3517644_37;
-saveCont(co, clofun91, 6, R);
+Obj v__3519000_37= co->res;
+Obj v__3517712_37 = R[1];
+Obj v__3517713_37 = R[2];
+R[1] = v__3517712_37;
+R[2] = v__3517713_37;
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3518915_37= co->res;
-Obj v__3517642_37 = R[1];
-Obj v__3517643_37 = R[2];
-Obj v__3517644_37 = R[3];
-R[1] = v__3517643_37;
-R[2] = v__3517644_37;
-saveCont(co, clofun91, 7, R);
-coraCall2(co, v__3518915_37, v__3517642_37, closureRef(R[0], 4));
+Obj v__3518999_37= co->res;
+Obj v__3517711_37 = R[1];
+Obj v__3517712_37 = R[2];
+Obj v__3517713_37 = R[3];
+R[1] = v__3517712_37;
+R[2] = v__3517713_37;
+saveCont(co, clofun92, 7, R);
+coraCall2(co, v__3518999_37, v__3517711_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3518914_37= co->res;
-Obj v__3517642_37 = R[1];
-Obj v__3517643_37 = R[2];
-Obj v__3517644_37 = R[3];
-R[1] = v__3517642_37;
-R[2] = v__3517643_37;
-R[3] = v__3517644_37;
-saveCont(co, clofun91, 8, R);
+Obj v__3518998_37= co->res;
+Obj v__3517711_37 = R[1];
+Obj v__3517712_37 = R[2];
+Obj v__3517713_37 = R[3];
+R[1] = v__3517711_37;
+R[2] = v__3517712_37;
+R[3] = v__3517713_37;
+saveCont(co, clofun92, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517623_37 = makeNative(co->gc, 3, clofun89, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3518850_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518850_37) {
-Obj v__3518851_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518852_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518851_37);
-if (True == v__3518852_37) {
-Obj v__3518853_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518854_37 = PRIM_ISCONS(v__3518853_37);
-if (True == v__3518854_37) {
-Obj v__3518855_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518856_37 = PRIM_CAR(v__3518855_37);
-Obj v__3517638_37 = v__3518856_37;
-Obj v__3518857_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518858_37 = PRIM_CDR(v__3518857_37);
-Obj v__3518859_37 = PRIM_ISCONS(v__3518858_37);
-if (True == v__3518859_37) {
-Obj v__3518860_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518861_37 = PRIM_CDR(v__3518860_37);
-Obj v__3518862_37 = PRIM_CAR(v__3518861_37);
-Obj v__3517639_37 = v__3518862_37;
-Obj v__3518863_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518864_37 = PRIM_CDR(v__3518863_37);
-Obj v__3518865_37 = PRIM_CDR(v__3518864_37);
-Obj v__3518866_37 = PRIM_ISCONS(v__3518865_37);
-if (True == v__3518866_37) {
-Obj v__3518867_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518868_37 = PRIM_CDR(v__3518867_37);
-Obj v__3518869_37 = PRIM_CDR(v__3518868_37);
-Obj v__3518870_37 = PRIM_CAR(v__3518869_37);
-Obj v__3517640_37 = v__3518870_37;
-Obj v__3518871_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518872_37 = PRIM_CDR(v__3518871_37);
-Obj v__3518873_37 = PRIM_CDR(v__3518872_37);
-Obj v__3518874_37 = PRIM_CDR(v__3518873_37);
-Obj v__3517641_37 = v__3518874_37;
-R[1] = v__3517640_37;
-R[2] = v__3517638_37;
-R[3] = v__3517639_37;
-R[4] = v__3517641_37;
-saveCont(co, clofun90, 12, R);
+Obj v__3517692_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3518934_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518934_37) {
+Obj v__3518935_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3518936_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518935_37);
+if (True == v__3518936_37) {
+Obj v__3518937_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518938_37 = PRIM_ISCONS(v__3518937_37);
+if (True == v__3518938_37) {
+Obj v__3518939_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518940_37 = PRIM_CAR(v__3518939_37);
+Obj v__3517707_37 = v__3518940_37;
+Obj v__3518941_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518942_37 = PRIM_CDR(v__3518941_37);
+Obj v__3518943_37 = PRIM_ISCONS(v__3518942_37);
+if (True == v__3518943_37) {
+Obj v__3518944_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518945_37 = PRIM_CDR(v__3518944_37);
+Obj v__3518946_37 = PRIM_CAR(v__3518945_37);
+Obj v__3517708_37 = v__3518946_37;
+Obj v__3518947_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518948_37 = PRIM_CDR(v__3518947_37);
+Obj v__3518949_37 = PRIM_CDR(v__3518948_37);
+Obj v__3518950_37 = PRIM_ISCONS(v__3518949_37);
+if (True == v__3518950_37) {
+Obj v__3518951_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518952_37 = PRIM_CDR(v__3518951_37);
+Obj v__3518953_37 = PRIM_CDR(v__3518952_37);
+Obj v__3518954_37 = PRIM_CAR(v__3518953_37);
+Obj v__3517709_37 = v__3518954_37;
+Obj v__3518955_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3518956_37 = PRIM_CDR(v__3518955_37);
+Obj v__3518957_37 = PRIM_CDR(v__3518956_37);
+Obj v__3518958_37 = PRIM_CDR(v__3518957_37);
+Obj v__3517710_37 = v__3518958_37;
+R[1] = v__3517709_37;
+R[2] = v__3517707_37;
+R[3] = v__3517708_37;
+R[4] = v__3517710_37;
+saveCont(co, clofun91, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517692_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518887_37= co->res;
+Obj v__3518971_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3518886_37= co->res;
-Obj v__3517641_37 = R[1];
-saveCont(co, clofun90, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517641_37};
-coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
+Obj v__3518970_37= co->res;
+Obj v__3517710_37 = R[1];
+saveCont(co, clofun91, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517710_37};
+coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3518884_37= co->res;
-Obj v__3517641_37 = R[1];
-Obj v__3518885_37 = primNot(v__3518884_37);
-if (True == v__3518885_37) {
-R[1] = v__3517641_37;
-saveCont(co, clofun90, 2, R);
+Obj v__3518968_37= co->res;
+Obj v__3517710_37 = R[1];
+Obj v__3518969_37 = primNot(v__3518968_37);
+if (True == v__3518969_37) {
+R[1] = v__3517710_37;
+saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3696,501 +3697,501 @@ return;
 }
 case 4:
 {
-Obj v__3518883_37= co->res;
-Obj v__3517641_37 = R[1];
-R[1] = v__3517641_37;
-saveCont(co, clofun90, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517641_37);
+Obj v__3518967_37= co->res;
+Obj v__3517710_37 = R[1];
+R[1] = v__3517710_37;
+saveCont(co, clofun91, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517710_37);
 return;
 }
 case 5:
 {
-Obj v__3518882_37= co->res;
-Obj v__3517641_37 = R[1];
-R[1] = v__3517641_37;
-saveCont(co, clofun90, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3518882_37);
+Obj v__3518966_37= co->res;
+Obj v__3517710_37 = R[1];
+R[1] = v__3517710_37;
+saveCont(co, clofun91, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3518966_37);
 return;
 }
 case 6:
 {
-Obj v__3518881_37= co->res;
-Obj v__3517641_37 = R[1];
-R[1] = v__3517641_37;
-saveCont(co, clofun90, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517641_37);
+Obj v__3518965_37= co->res;
+Obj v__3517710_37 = R[1];
+R[1] = v__3517710_37;
+saveCont(co, clofun91, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517710_37);
 return;
 }
 case 7:
 {
-Obj v__3518880_37= co->res;
-Obj v__3517641_37 = R[1];
-R[1] = v__3517641_37;
-saveCont(co, clofun90, 6, R);
+Obj v__3518964_37= co->res;
+Obj v__3517710_37 = R[1];
+R[1] = v__3517710_37;
+saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3518879_37= co->res;
-Obj v__3517639_37 = R[1];
-Obj v__3517641_37 = R[2];
-R[1] = v__3517641_37;
-saveCont(co, clofun90, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517639_37);
+Obj v__3518963_37= co->res;
+Obj v__3517708_37 = R[1];
+Obj v__3517710_37 = R[2];
+R[1] = v__3517710_37;
+saveCont(co, clofun91, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517708_37);
 return;
 }
 case 9:
 {
-Obj v__3518878_37= co->res;
-Obj v__3517639_37 = R[1];
-Obj v__3517641_37 = R[2];
-R[1] = v__3517639_37;
-R[2] = v__3517641_37;
-saveCont(co, clofun90, 8, R);
+Obj v__3518962_37= co->res;
+Obj v__3517708_37 = R[1];
+Obj v__3517710_37 = R[2];
+R[1] = v__3517708_37;
+R[2] = v__3517710_37;
+saveCont(co, clofun91, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3518877_37= co->res;
-Obj v__3517638_37 = R[1];
-Obj v__3517639_37 = R[2];
-Obj v__3517641_37 = R[3];
-R[1] = v__3517639_37;
-R[2] = v__3517641_37;
-saveCont(co, clofun90, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3517638_37);
+Obj v__3518961_37= co->res;
+Obj v__3517707_37 = R[1];
+Obj v__3517708_37 = R[2];
+Obj v__3517710_37 = R[3];
+R[1] = v__3517708_37;
+R[2] = v__3517710_37;
+saveCont(co, clofun91, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3517707_37);
 return;
 }
 case 11:
 {
-Obj v__3518876_37= co->res;
-Obj v__3517638_37 = R[1];
-Obj v__3517639_37 = R[2];
-Obj v__3517641_37 = R[3];
-R[1] = v__3517638_37;
-R[2] = v__3517639_37;
-R[3] = v__3517641_37;
-saveCont(co, clofun90, 10, R);
+Obj v__3518960_37= co->res;
+Obj v__3517707_37 = R[1];
+Obj v__3517708_37 = R[2];
+Obj v__3517710_37 = R[3];
+R[1] = v__3517707_37;
+R[2] = v__3517708_37;
+R[3] = v__3517710_37;
+saveCont(co, clofun91, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3518875_37= co->res;
-Obj v__3517640_37 = R[1];
-Obj v__3517638_37 = R[2];
-Obj v__3517639_37 = R[3];
-Obj v__3517641_37 = R[4];
-R[1] = v__3517638_37;
-R[2] = v__3517639_37;
-R[3] = v__3517641_37;
-saveCont(co, clofun90, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517640_37);
+Obj v__3518959_37= co->res;
+Obj v__3517709_37 = R[1];
+Obj v__3517707_37 = R[2];
+Obj v__3517708_37 = R[3];
+Obj v__3517710_37 = R[4];
+R[1] = v__3517707_37;
+R[2] = v__3517708_37;
+R[3] = v__3517710_37;
+saveCont(co, clofun91, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517709_37);
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517624_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3518829_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518829_37) {
-Obj v__3518830_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518831_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518830_37);
-if (True == v__3518831_37) {
-Obj v__3518832_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518833_37 = PRIM_ISCONS(v__3518832_37);
-if (True == v__3518833_37) {
-Obj v__3518834_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518835_37 = PRIM_CAR(v__3518834_37);
-Obj v__3517636_37 = v__3518835_37;
-Obj v__3518836_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518837_37 = PRIM_CDR(v__3518836_37);
-Obj v__3518838_37 = PRIM_ISCONS(v__3518837_37);
-if (True == v__3518838_37) {
-Obj v__3518839_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518840_37 = PRIM_CDR(v__3518839_37);
-Obj v__3518841_37 = PRIM_CAR(v__3518840_37);
-Obj v__3517637_37 = v__3518841_37;
-Obj v__3518842_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518843_37 = PRIM_CDR(v__3518842_37);
-Obj v__3518844_37 = PRIM_CDR(v__3518843_37);
-Obj v__3518845_37 = PRIM_EQ(Nil, v__3518844_37);
-if (True == v__3518845_37) {
-R[1] = v__3517636_37;
-R[2] = v__3517637_37;
-saveCont(co, clofun89, 4, R);
+Obj v__3517693_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3518913_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518913_37) {
+Obj v__3518914_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518915_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518914_37);
+if (True == v__3518915_37) {
+Obj v__3518916_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518917_37 = PRIM_ISCONS(v__3518916_37);
+if (True == v__3518917_37) {
+Obj v__3518918_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518919_37 = PRIM_CAR(v__3518918_37);
+Obj v__3517705_37 = v__3518919_37;
+Obj v__3518920_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518921_37 = PRIM_CDR(v__3518920_37);
+Obj v__3518922_37 = PRIM_ISCONS(v__3518921_37);
+if (True == v__3518922_37) {
+Obj v__3518923_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518924_37 = PRIM_CDR(v__3518923_37);
+Obj v__3518925_37 = PRIM_CAR(v__3518924_37);
+Obj v__3517706_37 = v__3518925_37;
+Obj v__3518926_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518927_37 = PRIM_CDR(v__3518926_37);
+Obj v__3518928_37 = PRIM_CDR(v__3518927_37);
+Obj v__3518929_37 = PRIM_EQ(Nil, v__3518928_37);
+if (True == v__3518929_37) {
+R[1] = v__3517705_37;
+R[2] = v__3517706_37;
+saveCont(co, clofun90, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517693_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518849_37= co->res;
-Obj v__3517637_37 = R[1];
+Obj v__3518933_37= co->res;
+Obj v__3517706_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3518849_37, v__3517637_37, closureRef(R[0], 5));
+coraCall2(co, v__3518933_37, v__3517706_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3518848_37= co->res;
-Obj v__3517637_37 = R[1];
-R[1] = v__3517637_37;
-saveCont(co, clofun89, 1, R);
+Obj v__3518932_37= co->res;
+Obj v__3517706_37 = R[1];
+R[1] = v__3517706_37;
+saveCont(co, clofun90, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518847_37= co->res;
-Obj v__3517637_37 = R[1];
-R[1] = v__3517637_37;
-saveCont(co, clofun89, 2, R);
+Obj v__3518931_37= co->res;
+Obj v__3517706_37 = R[1];
+R[1] = v__3517706_37;
+saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3518846_37= co->res;
-Obj v__3517636_37 = R[1];
-Obj v__3517637_37 = R[2];
-R[1] = v__3517637_37;
-saveCont(co, clofun89, 3, R);
-coraCall2(co, v__3518846_37, v__3517636_37, closureRef(R[0], 5));
+Obj v__3518930_37= co->res;
+Obj v__3517705_37 = R[1];
+Obj v__3517706_37 = R[2];
+R[1] = v__3517706_37;
+saveCont(co, clofun90, 3, R);
+coraCall2(co, v__3518930_37, v__3517705_37, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517625_37 = makeNative(co->gc, 2, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518815_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518815_37) {
-Obj v__3518816_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518817_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518816_37);
-if (True == v__3518817_37) {
-Obj v__3518818_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518819_37 = PRIM_ISCONS(v__3518818_37);
-if (True == v__3518819_37) {
-Obj v__3518820_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518821_37 = PRIM_CAR(v__3518820_37);
-Obj v__3517635_37 = v__3518821_37;
-Obj v__3518822_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518823_37 = PRIM_CDR(v__3518822_37);
-Obj v__3518824_37 = PRIM_EQ(Nil, v__3518823_37);
-if (True == v__3518824_37) {
-R[1] = v__3517635_37;
-saveCont(co, clofun88, 4, R);
+Obj v__3517694_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518899_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518899_37) {
+Obj v__3518900_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518901_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518900_37);
+if (True == v__3518901_37) {
+Obj v__3518902_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518903_37 = PRIM_ISCONS(v__3518902_37);
+if (True == v__3518903_37) {
+Obj v__3518904_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518905_37 = PRIM_CAR(v__3518904_37);
+Obj v__3517704_37 = v__3518905_37;
+Obj v__3518906_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518907_37 = PRIM_CDR(v__3518906_37);
+Obj v__3518908_37 = PRIM_EQ(Nil, v__3518907_37);
+if (True == v__3518908_37) {
+R[1] = v__3517704_37;
+saveCont(co, clofun89, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517694_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518828_37= co->res;
+Obj v__3518912_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518827_37= co->res;
-saveCont(co, clofun88, 1, R);
+Obj v__3518911_37= co->res;
+saveCont(co, clofun89, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3518826_37= co->res;
-Obj v__3517635_37 = R[1];
-saveCont(co, clofun88, 2, R);
-coraCall2(co, v__3518826_37, v__3517635_37, closureRef(R[0], 4));
+Obj v__3518910_37= co->res;
+Obj v__3517704_37 = R[1];
+saveCont(co, clofun89, 2, R);
+coraCall2(co, v__3518910_37, v__3517704_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3518825_37= co->res;
-Obj v__3517635_37 = R[1];
-R[1] = v__3517635_37;
-saveCont(co, clofun88, 3, R);
+Obj v__3518909_37= co->res;
+Obj v__3517704_37 = R[1];
+R[1] = v__3517704_37;
+saveCont(co, clofun89, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517626_37 = makeNative(co->gc, 3, clofun86, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518802_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518802_37) {
-Obj v__3518803_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518804_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518803_37);
-if (True == v__3518804_37) {
-Obj v__3518805_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518806_37 = PRIM_ISCONS(v__3518805_37);
-if (True == v__3518806_37) {
-Obj v__3518807_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518808_37 = PRIM_CAR(v__3518807_37);
-Obj v__3517634_37 = v__3518808_37;
-Obj v__3518809_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518810_37 = PRIM_CDR(v__3518809_37);
-Obj v__3518811_37 = PRIM_EQ(Nil, v__3518810_37);
-if (True == v__3518811_37) {
-R[1] = v__3517634_37;
-saveCont(co, clofun87, 3, R);
+Obj v__3517695_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518886_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518886_37) {
+Obj v__3518887_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518888_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518887_37);
+if (True == v__3518888_37) {
+Obj v__3518889_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518890_37 = PRIM_ISCONS(v__3518889_37);
+if (True == v__3518890_37) {
+Obj v__3518891_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518892_37 = PRIM_CAR(v__3518891_37);
+Obj v__3517703_37 = v__3518892_37;
+Obj v__3518893_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518894_37 = PRIM_CDR(v__3518893_37);
+Obj v__3518895_37 = PRIM_EQ(Nil, v__3518894_37);
+if (True == v__3518895_37) {
+R[1] = v__3517703_37;
+saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517626_37);
+coraCall0(co, v__3517695_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517626_37);
+coraCall0(co, v__3517695_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517626_37);
+coraCall0(co, v__3517695_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517626_37);
+coraCall0(co, v__3517695_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518814_37= co->res;
+Obj v__3518898_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518813_37= co->res;
-Obj v__3517634_37 = R[1];
-saveCont(co, clofun87, 1, R);
-coraCall2(co, v__3518813_37, v__3517634_37, closureRef(R[0], 4));
+Obj v__3518897_37= co->res;
+Obj v__3517703_37 = R[1];
+saveCont(co, clofun88, 1, R);
+coraCall2(co, v__3518897_37, v__3517703_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518812_37= co->res;
-Obj v__3517634_37 = R[1];
-R[1] = v__3517634_37;
-saveCont(co, clofun87, 2, R);
+Obj v__3518896_37= co->res;
+Obj v__3517703_37 = R[1];
+R[1] = v__3517703_37;
+saveCont(co, clofun88, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517627_37 = makeNative(co->gc, 4, clofun85, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518778_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518778_37) {
-Obj v__3518779_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518780_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518779_37);
-if (True == v__3518780_37) {
-Obj v__3518781_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518782_37 = PRIM_ISCONS(v__3518781_37);
-if (True == v__3518782_37) {
-Obj v__3518783_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518784_37 = PRIM_CAR(v__3518783_37);
-Obj v__3517631_37 = v__3518784_37;
-Obj v__3518785_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518786_37 = PRIM_CDR(v__3518785_37);
-Obj v__3518787_37 = PRIM_ISCONS(v__3518786_37);
-if (True == v__3518787_37) {
-Obj v__3518788_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518789_37 = PRIM_CDR(v__3518788_37);
-Obj v__3518790_37 = PRIM_CAR(v__3518789_37);
-Obj v__3517632_37 = v__3518790_37;
-Obj v__3518791_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518792_37 = PRIM_CDR(v__3518791_37);
-Obj v__3518793_37 = PRIM_CDR(v__3518792_37);
-Obj v__3517633_37 = v__3518793_37;
-R[1] = v__3517632_37;
-R[2] = v__3517631_37;
-saveCont(co, clofun86, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517633_37};
+Obj v__3517696_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518862_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518862_37) {
+Obj v__3518863_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518864_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518863_37);
+if (True == v__3518864_37) {
+Obj v__3518865_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518866_37 = PRIM_ISCONS(v__3518865_37);
+if (True == v__3518866_37) {
+Obj v__3518867_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518868_37 = PRIM_CAR(v__3518867_37);
+Obj v__3517700_37 = v__3518868_37;
+Obj v__3518869_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518870_37 = PRIM_CDR(v__3518869_37);
+Obj v__3518871_37 = PRIM_ISCONS(v__3518870_37);
+if (True == v__3518871_37) {
+Obj v__3518872_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518873_37 = PRIM_CDR(v__3518872_37);
+Obj v__3518874_37 = PRIM_CAR(v__3518873_37);
+Obj v__3517701_37 = v__3518874_37;
+Obj v__3518875_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518876_37 = PRIM_CDR(v__3518875_37);
+Obj v__3518877_37 = PRIM_CDR(v__3518876_37);
+Obj v__3517702_37 = v__3518877_37;
+R[1] = v__3517701_37;
+R[2] = v__3517700_37;
+saveCont(co, clofun87, 8, R);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517702_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517627_37);
+coraCall0(co, v__3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517627_37);
+coraCall0(co, v__3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517627_37);
+coraCall0(co, v__3517696_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517627_37);
+coraCall0(co, v__3517696_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518801_37= co->res;
+Obj v__3518885_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518800_37= co->res;
-Obj v__3517631_37 = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, v__3518800_37, v__3517631_37, closureRef(R[0], 4));
+Obj v__3518884_37= co->res;
+Obj v__3517700_37 = R[1];
+saveCont(co, clofun87, 1, R);
+coraCall2(co, v__3518884_37, v__3517700_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518799_37= co->res;
-Obj v__3517631_37 = R[1];
-R[1] = v__3517631_37;
-saveCont(co, clofun86, 2, R);
+Obj v__3518883_37= co->res;
+Obj v__3517700_37 = R[1];
+R[1] = v__3517700_37;
+saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518798_37= co->res;
-Obj v__3517631_37 = R[1];
-R[1] = v__3517631_37;
-saveCont(co, clofun86, 3, R);
+Obj v__3518882_37= co->res;
+Obj v__3517700_37 = R[1];
+R[1] = v__3517700_37;
+saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3518797_37= co->res;
-Obj v__3517632_37 = R[1];
-Obj v__3517631_37 = R[2];
-R[1] = v__3517631_37;
-saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517632_37);
+Obj v__3518881_37= co->res;
+Obj v__3517701_37 = R[1];
+Obj v__3517700_37 = R[2];
+R[1] = v__3517700_37;
+saveCont(co, clofun87, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517701_37);
 return;
 }
 case 6:
 {
-Obj v__3518796_37= co->res;
-Obj v__3517632_37 = R[1];
-Obj v__3517631_37 = R[2];
-R[1] = v__3517632_37;
-R[2] = v__3517631_37;
-saveCont(co, clofun86, 5, R);
+Obj v__3518880_37= co->res;
+Obj v__3517701_37 = R[1];
+Obj v__3517700_37 = R[2];
+R[1] = v__3517701_37;
+R[2] = v__3517700_37;
+saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3518795_37= co->res;
-Obj v__3517632_37 = R[1];
-Obj v__3517631_37 = R[2];
-R[1] = v__3517632_37;
-R[2] = v__3517631_37;
-saveCont(co, clofun86, 6, R);
+Obj v__3518879_37= co->res;
+Obj v__3517701_37 = R[1];
+Obj v__3517700_37 = R[2];
+R[1] = v__3517701_37;
+R[2] = v__3517700_37;
+saveCont(co, clofun87, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3518794_37= co->res;
-Obj v__3517632_37 = R[1];
-Obj v__3517631_37 = R[2];
-R[1] = v__3517632_37;
-R[2] = v__3517631_37;
-saveCont(co, clofun86, 7, R);
+Obj v__3518878_37= co->res;
+Obj v__3517701_37 = R[1];
+Obj v__3517700_37 = R[2];
+R[1] = v__3517701_37;
+R[2] = v__3517700_37;
+saveCont(co, clofun87, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518755_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518755_37) {
-Obj v__3518756_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517628_37 = v__3518756_37;
-Obj v__3518757_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517629_37 = v__3518757_37;
-R[1] = v__3517628_37;
-R[2] = v__3517629_37;
-saveCont(co, clofun85, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517629_37);
+Obj v__3518839_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518839_37) {
+Obj v__3518840_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517697_37 = v__3518840_37;
+Obj v__3518841_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517698_37 = v__3518841_37;
+R[1] = v__3517697_37;
+R[2] = v__3517698_37;
+saveCont(co, clofun86, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517698_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4200,135 +4201,135 @@ return;
 }
 case 1:
 {
-Obj v__3518769_37= co->res;
+Obj v__3518853_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3518768_37= co->res;
-Obj v__3517630_37 = R[1];
-saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517630_37);
+Obj v__3518852_37= co->res;
+Obj v__3517699_37 = R[1];
+saveCont(co, clofun86, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517699_37);
 return;
 }
 case 3:
 {
-Obj v__3518767_37= co->res;
-Obj v__3517630_37 = R[1];
-R[1] = v__3517630_37;
-saveCont(co, clofun85, 2, R);
+Obj v__3518851_37= co->res;
+Obj v__3517699_37 = R[1];
+R[1] = v__3517699_37;
+saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3518766_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-R[1] = v__3517630_37;
-saveCont(co, clofun85, 3, R);
-coraCall2(co, v__3518766_37, v__3517628_37, closureRef(R[0], 4));
+Obj v__3518850_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+R[1] = v__3517699_37;
+saveCont(co, clofun86, 3, R);
+coraCall2(co, v__3518850_37, v__3517697_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3518765_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-saveCont(co, clofun85, 4, R);
+Obj v__3518849_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+saveCont(co, clofun86, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3518764_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-saveCont(co, clofun85, 5, R);
+Obj v__3518848_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3518763_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-saveCont(co, clofun85, 6, R);
+Obj v__3518847_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3518762_37= co->res;
-Obj v__3517629_37 = R[1];
-Obj v__3517628_37 = R[2];
-Obj v__3517630_37 = R[3];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-saveCont(co, clofun85, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517629_37};
+Obj v__3518846_37= co->res;
+Obj v__3517698_37 = R[1];
+Obj v__3517697_37 = R[2];
+Obj v__3517699_37 = R[3];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+saveCont(co, clofun86, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517698_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518761_37= co->res;
-Obj v__3517629_37 = R[1];
-Obj v__3517628_37 = R[2];
-Obj v__3517630_37 = R[3];
-R[1] = v__3517629_37;
-R[2] = v__3517628_37;
-R[3] = v__3517630_37;
-saveCont(co, clofun85, 8, R);
+Obj v__3518845_37= co->res;
+Obj v__3517698_37 = R[1];
+Obj v__3517697_37 = R[2];
+Obj v__3517699_37 = R[3];
+R[1] = v__3517698_37;
+R[2] = v__3517697_37;
+R[3] = v__3517699_37;
+saveCont(co, clofun86, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3518760_37= co->res;
-Obj v__3517629_37 = R[1];
-Obj v__3517628_37 = R[2];
-Obj v__3517630_37 = R[3];
-R[1] = v__3517629_37;
-R[2] = v__3517628_37;
-R[3] = v__3517630_37;
-saveCont(co, clofun85, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517630_37);
+Obj v__3518844_37= co->res;
+Obj v__3517698_37 = R[1];
+Obj v__3517697_37 = R[2];
+Obj v__3517699_37 = R[3];
+R[1] = v__3517698_37;
+R[2] = v__3517697_37;
+R[3] = v__3517699_37;
+saveCont(co, clofun86, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517699_37);
 return;
 }
 case 11:
 {
-Obj v__3518777_37= co->res;
+Obj v__3518861_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3518776_37= co->res;
-Obj v__3517629_37 = R[1];
-saveCont(co, clofun85, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517629_37};
+Obj v__3518860_37= co->res;
+Obj v__3517698_37 = R[1];
+saveCont(co, clofun86, 11, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517698_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3518774_37= co->res;
-Obj v__3517630_37 = R[1];
-Obj v__3517629_37 = R[2];
-Obj v__3518775_37 = PRIM_GT(v__3517630_37, MAKE_NUMBER(0));
-if (True == v__3518775_37) {
-R[1] = v__3517629_37;
-saveCont(co, clofun85, 12, R);
+Obj v__3518858_37= co->res;
+Obj v__3517699_37 = R[1];
+Obj v__3517698_37 = R[2];
+Obj v__3518859_37 = PRIM_GT(v__3517699_37, MAKE_NUMBER(0));
+if (True == v__3518859_37) {
+R[1] = v__3517698_37;
+saveCont(co, clofun86, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4340,74 +4341,74 @@ return;
 }
 case 14:
 {
-Obj v__3518773_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-Obj v__3517629_37 = R[3];
-R[1] = v__3517630_37;
-R[2] = v__3517629_37;
-saveCont(co, clofun85, 13, R);
-coraCall2(co, v__3518773_37, v__3517628_37, closureRef(R[0], 4));
+Obj v__3518857_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+Obj v__3517698_37 = R[3];
+R[1] = v__3517699_37;
+R[2] = v__3517698_37;
+saveCont(co, clofun86, 13, R);
+coraCall2(co, v__3518857_37, v__3517697_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3518772_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-Obj v__3517629_37 = R[3];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-R[3] = v__3517629_37;
-saveCont(co, clofun85, 14, R);
+Obj v__3518856_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+Obj v__3517698_37 = R[3];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+R[3] = v__3517698_37;
+saveCont(co, clofun86, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3518771_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-Obj v__3517629_37 = R[3];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-R[3] = v__3517629_37;
-saveCont(co, clofun85, 15, R);
+Obj v__3518855_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+Obj v__3517698_37 = R[3];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+R[3] = v__3517698_37;
+saveCont(co, clofun86, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3518770_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-Obj v__3517629_37 = R[3];
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-R[3] = v__3517629_37;
-saveCont(co, clofun85, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517630_37);
+Obj v__3518854_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517699_37 = R[2];
+Obj v__3517698_37 = R[3];
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+R[3] = v__3517698_37;
+saveCont(co, clofun86, 16, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517699_37);
 return;
 }
 case 18:
 {
-Obj v__3518758_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517629_37 = R[2];
-Obj v__3517630_37 = v__3518758_37;
-Obj v__3518759_37 = PRIM_GT(v__3517630_37, MAKE_NUMBER(4));
-if (True == v__3518759_37) {
-R[1] = v__3517629_37;
-R[2] = v__3517628_37;
-R[3] = v__3517630_37;
-saveCont(co, clofun85, 10, R);
+Obj v__3518842_37= co->res;
+Obj v__3517697_37 = R[1];
+Obj v__3517698_37 = R[2];
+Obj v__3517699_37 = v__3518842_37;
+Obj v__3518843_37 = PRIM_GT(v__3517699_37, MAKE_NUMBER(4));
+if (True == v__3518843_37) {
+R[1] = v__3517698_37;
+R[2] = v__3517697_37;
+R[3] = v__3517699_37;
+saveCont(co, clofun86, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
-R[3] = v__3517629_37;
-saveCont(co, clofun85, 17, R);
+R[1] = v__3517697_37;
+R[2] = v__3517699_37;
+R[3] = v__3517698_37;
+saveCont(co, clofun86, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4415,7 +4416,7 @@ return;
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4425,13 +4426,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun83, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun84, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4439,52 +4440,52 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun83, 5, R);
+saveCont(co, clofun84, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3518750_37= co->res;
+Obj v__3518834_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518751_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518751_37);
+Obj v__3518835_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518835_37);
 return;
 }
 case 2:
 {
-Obj v__3518749_37= co->res;
+Obj v__3518833_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun83, 1, R);
+saveCont(co, clofun84, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3518748_37= co->res;
+Obj v__3518832_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun83, 2, R);
+saveCont(co, clofun84, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 case 4:
 {
-Obj v__3518747_37= co->res;
+Obj v__3518831_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun83, 3, R);
+saveCont(co, clofun84, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3518746_37= co->res;
+Obj v__3518830_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun83, 4, R);
+saveCont(co, clofun84, 4, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
@@ -4492,7 +4493,7 @@ return;
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4502,13 +4503,13 @@ Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_ls = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun81, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
 return;
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4516,64 +4517,64 @@ Obj v_acc = R[1];
 Obj v_v = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun81, 5, R);
+saveCont(co, clofun82, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3518743_37= co->res;
+Obj v__3518827_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518744_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518744_37);
+Obj v__3518828_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518828_37);
 return;
 }
 case 2:
 {
-Obj v__3518742_37= co->res;
+Obj v__3518826_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun81, 1, R);
+saveCont(co, clofun82, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3518741_37= co->res;
+Obj v__3518825_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
-saveCont(co, clofun81, 2, R);
+saveCont(co, clofun82, 2, R);
 Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3518740_37= co->res;
+Obj v__3518824_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun81, 3, R);
+saveCont(co, clofun82, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3518739_37= co->res;
+Obj v__3518823_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
 R[2] = v_acc;
-saveCont(co, clofun81, 4, R);
+saveCont(co, clofun82, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4586,7 +4587,7 @@ return;
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4596,30 +4597,30 @@ Obj v_globals = R[3];
 R[1] = v_idx;
 R[2] = v_globals;
 R[3] = v_sym;
-saveCont(co, clofun79, 1, R);
+saveCont(co, clofun80, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_globals);
 return;
 }
 case 1:
 {
-Obj v__3518732_37= co->res;
+Obj v__3518816_37= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v__3518732_37) {
+if (True == v__3518816_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3518733_37 = PRIM_CAR(v_globals);
-Obj v__3518734_37 = PRIM_EQ(v_sym, v__3518733_37);
-if (True == v__3518734_37) {
+Obj v__3518817_37 = PRIM_CAR(v_globals);
+Obj v__3518818_37 = PRIM_EQ(v_sym, v__3518817_37);
+if (True == v__3518818_37) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v__3518735_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v__3518736_37 = PRIM_CDR(v_globals);
+Obj v__3518819_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v__3518820_37 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3518735_37, v_sym, v__3518736_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3518819_37, v_sym, v__3518820_37);
 return;
 }
 }
@@ -4627,7 +4628,7 @@ return;
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4635,72 +4636,72 @@ Obj v_sym = R[1];
 Obj v_globals = R[2];
 R[1] = v_sym;
 R[2] = v_globals;
-saveCont(co, clofun78, 2, R);
+saveCont(co, clofun79, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
 return;
 }
 case 1:
 {
-Obj v__3518728_37= co->res;
+Obj v__3518812_37= co->res;
 Obj v_sym = R[1];
-Obj v__3517615_37 = R[2];
+Obj v__3517684_37 = R[2];
 Obj v_globals = R[3];
-if (True == v__3518728_37) {
+if (True == v__3518812_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518729_37 = makeCons(co->gc, v_sym, v__3517615_37);
-Obj v__3518730_37 = primSet(co, v_globals, v__3518729_37);
-coraReturn(co, v__3518730_37);
+Obj v__3518813_37 = makeCons(co->gc, v_sym, v__3517684_37);
+Obj v__3518814_37 = primSet(co, v_globals, v__3518813_37);
+coraReturn(co, v__3518814_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518727_37= co->res;
+Obj v__3518811_37= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v__3517615_37 = v__3518727_37;
+Obj v__3517684_37 = v__3518811_37;
 R[1] = v_sym;
-R[2] = v__3517615_37;
+R[2] = v__3517684_37;
 R[3] = v_globals;
-saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_sym, v__3517615_37);
+saveCont(co, clofun79, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_sym, v__3517684_37);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v__3518720_37 = primGenSym(co);
-Obj v__3517614_37 = v__3518720_37;
+Obj v__3518804_37 = primGenSym(co);
+Obj v__3517683_37 = v__3518804_37;
 R[1] = v_x;
-R[2] = v__3517614_37;
-saveCont(co, clofun77, 1, R);
-coraCall1(co, v_k, v__3517614_37);
+R[2] = v__3517683_37;
+saveCont(co, clofun78, 1, R);
+coraCall1(co, v_k, v__3517683_37);
 return;
 }
 case 1:
 {
-Obj v__3518721_37= co->res;
+Obj v__3518805_37= co->res;
 Obj v_x = R[1];
-Obj v__3517614_37 = R[2];
-Obj v__3518722_37 = makeCons(co->gc, v__3518721_37, Nil);
-Obj v__3518723_37 = makeCons(co->gc, v_x, v__3518722_37);
-Obj v__3518724_37 = makeCons(co->gc, v__3517614_37, v__3518723_37);
-Obj v__3518725_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518724_37);
-coraReturn(co, v__3518725_37);
+Obj v__3517683_37 = R[2];
+Obj v__3518806_37 = makeCons(co->gc, v__3518805_37, Nil);
+Obj v__3518807_37 = makeCons(co->gc, v_x, v__3518806_37);
+Obj v__3518808_37 = makeCons(co->gc, v__3517683_37, v__3518807_37);
+Obj v__3518809_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518808_37);
+coraReturn(co, v__3518809_37);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -4708,258 +4709,258 @@ Obj v_v = R[1];
 Obj v_val = R[2];
 R[1] = v_val;
 R[2] = v_v;
-saveCont(co, clofun76, 3, R);
+saveCont(co, clofun77, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3518718_37= co->res;
+Obj v__3518802_37= co->res;
 Obj v_v = R[1];
-Obj v__3517613_37 = R[2];
+Obj v__3517682_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v__3517613_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v__3517682_37);
 return;
 }
 case 2:
 {
-Obj v__3518713_37= co->res;
+Obj v__3518797_37= co->res;
 Obj v_val = R[1];
-Obj v__3517611_37 = R[2];
+Obj v__3517680_37 = R[2];
 Obj v_v = R[3];
-Obj v__3517612_37 = v__3518713_37;
-Obj v__3518714_37 = makeCons(co->gc, v_val, Nil);
-Obj v__3518715_37 = makeCons(co->gc, v__3517611_37, v__3518714_37);
-Obj v__3518716_37 = makeCons(co->gc, v__3518715_37, v__3517612_37);
-Obj v__3517613_37 = v__3518716_37;
-Obj v__3518717_37 = PRIM_ADD(v__3517611_37, MAKE_NUMBER(1));
+Obj v__3517681_37 = v__3518797_37;
+Obj v__3518798_37 = makeCons(co->gc, v_val, Nil);
+Obj v__3518799_37 = makeCons(co->gc, v__3517680_37, v__3518798_37);
+Obj v__3518800_37 = makeCons(co->gc, v__3518799_37, v__3517681_37);
+Obj v__3517682_37 = v__3518800_37;
+Obj v__3518801_37 = PRIM_ADD(v__3517680_37, MAKE_NUMBER(1));
 R[1] = v_v;
-R[2] = v__3517613_37;
-saveCont(co, clofun76, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v__3518717_37);
+R[2] = v__3517682_37;
+saveCont(co, clofun77, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v__3518801_37);
 return;
 }
 case 3:
 {
-Obj v__3518712_37= co->res;
+Obj v__3518796_37= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v__3517611_37 = v__3518712_37;
+Obj v__3517680_37 = v__3518796_37;
 R[1] = v_val;
-R[2] = v__3517611_37;
+R[2] = v__3517680_37;
 R[3] = v_v;
-saveCont(co, clofun76, 2, R);
+saveCont(co, clofun77, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517388_37 = R[1];
-Obj v__3517389_37 = R[2];
-Obj v__3517603_37 = makeNative(co->gc, 1, clofun74, 0, 2, v__3517388_37, v__3517389_37);
-Obj v__3518663_37 = PRIM_ISCONS(v__3517389_37);
-if (True == v__3518663_37) {
-Obj v__3518664_37 = PRIM_CAR(v__3517389_37);
-Obj v__3518665_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518664_37);
-if (True == v__3518665_37) {
-Obj v__3518666_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518667_37 = PRIM_ISCONS(v__3518666_37);
-if (True == v__3518667_37) {
-Obj v__3518668_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518669_37 = PRIM_CAR(v__3518668_37);
-Obj v__3518670_37 = PRIM_ISCONS(v__3518669_37);
-if (True == v__3518670_37) {
-Obj v__3518671_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518672_37 = PRIM_CAR(v__3518671_37);
-Obj v__3518673_37 = PRIM_CAR(v__3518672_37);
-Obj v__3518674_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518673_37);
-if (True == v__3518674_37) {
-Obj v__3518675_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518676_37 = PRIM_CAR(v__3518675_37);
-Obj v__3518677_37 = PRIM_CDR(v__3518676_37);
-Obj v__3518678_37 = PRIM_ISCONS(v__3518677_37);
-if (True == v__3518678_37) {
-Obj v__3518679_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518680_37 = PRIM_CAR(v__3518679_37);
-Obj v__3518681_37 = PRIM_CDR(v__3518680_37);
-Obj v__3518682_37 = PRIM_CAR(v__3518681_37);
-Obj v__3517604_37 = v__3518682_37;
-Obj v__3518683_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518684_37 = PRIM_CAR(v__3518683_37);
-Obj v__3518685_37 = PRIM_CDR(v__3518684_37);
-Obj v__3518686_37 = PRIM_CDR(v__3518685_37);
-Obj v__3518687_37 = PRIM_ISCONS(v__3518686_37);
-if (True == v__3518687_37) {
-Obj v__3518688_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518689_37 = PRIM_CAR(v__3518688_37);
-Obj v__3518690_37 = PRIM_CDR(v__3518689_37);
-Obj v__3518691_37 = PRIM_CDR(v__3518690_37);
-Obj v__3518692_37 = PRIM_CAR(v__3518691_37);
-Obj v__3517605_37 = v__3518692_37;
-Obj v__3518693_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518694_37 = PRIM_CAR(v__3518693_37);
-Obj v__3518695_37 = PRIM_CDR(v__3518694_37);
-Obj v__3518696_37 = PRIM_CDR(v__3518695_37);
-Obj v__3518697_37 = PRIM_CDR(v__3518696_37);
-Obj v__3518698_37 = PRIM_EQ(Nil, v__3518697_37);
-if (True == v__3518698_37) {
-Obj v__3518699_37 = PRIM_CDR(v__3517389_37);
-Obj v__3518700_37 = PRIM_CDR(v__3518699_37);
-Obj v__3517606_37 = v__3518700_37;
-R[1] = v__3517388_37;
-R[2] = v__3517604_37;
-R[3] = v__3517606_37;
-saveCont(co, clofun75, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517388_37, v__3517605_37);
+Obj v__3517454_37 = R[1];
+Obj v__3517455_37 = R[2];
+Obj v__3517672_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3517454_37, v__3517455_37);
+Obj v__3518747_37 = PRIM_ISCONS(v__3517455_37);
+if (True == v__3518747_37) {
+Obj v__3518748_37 = PRIM_CAR(v__3517455_37);
+Obj v__3518749_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518748_37);
+if (True == v__3518749_37) {
+Obj v__3518750_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518751_37 = PRIM_ISCONS(v__3518750_37);
+if (True == v__3518751_37) {
+Obj v__3518752_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518753_37 = PRIM_CAR(v__3518752_37);
+Obj v__3518754_37 = PRIM_ISCONS(v__3518753_37);
+if (True == v__3518754_37) {
+Obj v__3518755_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518756_37 = PRIM_CAR(v__3518755_37);
+Obj v__3518757_37 = PRIM_CAR(v__3518756_37);
+Obj v__3518758_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518757_37);
+if (True == v__3518758_37) {
+Obj v__3518759_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518760_37 = PRIM_CAR(v__3518759_37);
+Obj v__3518761_37 = PRIM_CDR(v__3518760_37);
+Obj v__3518762_37 = PRIM_ISCONS(v__3518761_37);
+if (True == v__3518762_37) {
+Obj v__3518763_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518764_37 = PRIM_CAR(v__3518763_37);
+Obj v__3518765_37 = PRIM_CDR(v__3518764_37);
+Obj v__3518766_37 = PRIM_CAR(v__3518765_37);
+Obj v__3517673_37 = v__3518766_37;
+Obj v__3518767_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518768_37 = PRIM_CAR(v__3518767_37);
+Obj v__3518769_37 = PRIM_CDR(v__3518768_37);
+Obj v__3518770_37 = PRIM_CDR(v__3518769_37);
+Obj v__3518771_37 = PRIM_ISCONS(v__3518770_37);
+if (True == v__3518771_37) {
+Obj v__3518772_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518773_37 = PRIM_CAR(v__3518772_37);
+Obj v__3518774_37 = PRIM_CDR(v__3518773_37);
+Obj v__3518775_37 = PRIM_CDR(v__3518774_37);
+Obj v__3518776_37 = PRIM_CAR(v__3518775_37);
+Obj v__3517674_37 = v__3518776_37;
+Obj v__3518777_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518778_37 = PRIM_CAR(v__3518777_37);
+Obj v__3518779_37 = PRIM_CDR(v__3518778_37);
+Obj v__3518780_37 = PRIM_CDR(v__3518779_37);
+Obj v__3518781_37 = PRIM_CDR(v__3518780_37);
+Obj v__3518782_37 = PRIM_EQ(Nil, v__3518781_37);
+if (True == v__3518782_37) {
+Obj v__3518783_37 = PRIM_CDR(v__3517455_37);
+Obj v__3518784_37 = PRIM_CDR(v__3518783_37);
+Obj v__3517675_37 = v__3518784_37;
+R[1] = v__3517454_37;
+R[2] = v__3517673_37;
+R[3] = v__3517675_37;
+saveCont(co, clofun76, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517454_37, v__3517674_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517603_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518706_37= co->res;
-Obj v__3517610_37 = R[1];
-Obj v__3517606_37 = R[2];
-Obj v__3517608_37 = R[3];
-Obj v__3518707_37 = makeCons(co->gc, v__3517610_37, v__3517606_37);
-Obj v__3518708_37 = makeCons(co->gc, v__3518706_37, v__3518707_37);
-Obj v__3518709_37 = makeCons(co->gc, v__3517608_37, v__3518708_37);
-Obj v__3518710_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518709_37);
-coraReturn(co, v__3518710_37);
+Obj v__3518790_37= co->res;
+Obj v__3517679_37 = R[1];
+Obj v__3517675_37 = R[2];
+Obj v__3517677_37 = R[3];
+Obj v__3518791_37 = makeCons(co->gc, v__3517679_37, v__3517675_37);
+Obj v__3518792_37 = makeCons(co->gc, v__3518790_37, v__3518791_37);
+Obj v__3518793_37 = makeCons(co->gc, v__3517677_37, v__3518792_37);
+Obj v__3518794_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518793_37);
+coraReturn(co, v__3518794_37);
 return;
 }
 case 2:
 {
-Obj v__3518705_37= co->res;
-Obj v__3517604_37 = R[1];
-Obj v__3517610_37 = R[2];
-Obj v__3517606_37 = R[3];
-Obj v__3517608_37 = R[4];
-R[1] = v__3517610_37;
-R[2] = v__3517606_37;
-R[3] = v__3517608_37;
-saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517604_37);
+Obj v__3518789_37= co->res;
+Obj v__3517673_37 = R[1];
+Obj v__3517679_37 = R[2];
+Obj v__3517675_37 = R[3];
+Obj v__3517677_37 = R[4];
+R[1] = v__3517679_37;
+R[2] = v__3517675_37;
+R[3] = v__3517677_37;
+saveCont(co, clofun76, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517673_37);
 return;
 }
 case 3:
 {
-Obj v__3518704_37= co->res;
-Obj v__3517388_37 = R[1];
-Obj v__3517609_37 = R[2];
-Obj v__3517604_37 = R[3];
-Obj v__3517606_37 = R[4];
-Obj v__3517608_37 = R[5];
-Obj v__3517610_37 = v__3518704_37;
-R[1] = v__3517604_37;
-R[2] = v__3517610_37;
-R[3] = v__3517606_37;
-R[4] = v__3517608_37;
-saveCont(co, clofun75, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517388_37, v__3517609_37);
+Obj v__3518788_37= co->res;
+Obj v__3517454_37 = R[1];
+Obj v__3517678_37 = R[2];
+Obj v__3517673_37 = R[3];
+Obj v__3517675_37 = R[4];
+Obj v__3517677_37 = R[5];
+Obj v__3517679_37 = v__3518788_37;
+R[1] = v__3517673_37;
+R[2] = v__3517679_37;
+R[3] = v__3517675_37;
+R[4] = v__3517677_37;
+saveCont(co, clofun76, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517454_37, v__3517678_37);
 return;
 }
 case 4:
 {
-Obj v__3518703_37= co->res;
-Obj v__3517388_37 = R[1];
-Obj v__3517604_37 = R[2];
-Obj v__3517606_37 = R[3];
-Obj v__3517608_37 = R[4];
-Obj v__3517609_37 = v__3518703_37;
-R[1] = v__3517388_37;
-R[2] = v__3517609_37;
-R[3] = v__3517604_37;
-R[4] = v__3517606_37;
-R[5] = v__3517608_37;
-saveCont(co, clofun75, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3517609_37);
+Obj v__3518787_37= co->res;
+Obj v__3517454_37 = R[1];
+Obj v__3517673_37 = R[2];
+Obj v__3517675_37 = R[3];
+Obj v__3517677_37 = R[4];
+Obj v__3517678_37 = v__3518787_37;
+R[1] = v__3517454_37;
+R[2] = v__3517678_37;
+R[3] = v__3517673_37;
+R[4] = v__3517675_37;
+R[5] = v__3517677_37;
+saveCont(co, clofun76, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3517678_37);
 return;
 }
 case 5:
 {
-Obj v__3518702_37= co->res;
-Obj v__3517607_37 = R[1];
-Obj v__3517388_37 = R[2];
-Obj v__3517604_37 = R[3];
-Obj v__3517606_37 = R[4];
-Obj v__3517608_37 = v__3518702_37;
-R[1] = v__3517388_37;
-R[2] = v__3517604_37;
-R[3] = v__3517606_37;
-R[4] = v__3517608_37;
-saveCont(co, clofun75, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517604_37, v__3517607_37);
+Obj v__3518786_37= co->res;
+Obj v__3517676_37 = R[1];
+Obj v__3517454_37 = R[2];
+Obj v__3517673_37 = R[3];
+Obj v__3517675_37 = R[4];
+Obj v__3517677_37 = v__3518786_37;
+R[1] = v__3517454_37;
+R[2] = v__3517673_37;
+R[3] = v__3517675_37;
+R[4] = v__3517677_37;
+saveCont(co, clofun76, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517673_37, v__3517676_37);
 return;
 }
 case 6:
 {
-Obj v__3518701_37= co->res;
-Obj v__3517388_37 = R[1];
-Obj v__3517604_37 = R[2];
-Obj v__3517606_37 = R[3];
-Obj v__3517607_37 = v__3518701_37;
-R[1] = v__3517607_37;
-R[2] = v__3517388_37;
-R[3] = v__3517604_37;
-R[4] = v__3517606_37;
-saveCont(co, clofun75, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517388_37, MAKE_NUMBER(0));
+Obj v__3518785_37= co->res;
+Obj v__3517454_37 = R[1];
+Obj v__3517673_37 = R[2];
+Obj v__3517675_37 = R[3];
+Obj v__3517676_37 = v__3518785_37;
+R[1] = v__3517676_37;
+R[2] = v__3517454_37;
+R[3] = v__3517673_37;
+R[4] = v__3517675_37;
+saveCont(co, clofun76, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517454_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518661_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518661_37) {
-saveCont(co, clofun74, 1, R);
+Obj v__3518745_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518745_37) {
+saveCont(co, clofun75, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
@@ -4969,75 +4970,75 @@ return;
 }
 case 1:
 {
-Obj v__3518662_37= co->res;
+Obj v__3518746_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518662_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518746_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun73, 3, R);
+saveCont(co, clofun74, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
 return;
 }
 case 1:
 {
-Obj v__3518659_37= co->res;
-Obj v__3518658_37 = R[1];
+Obj v__3518743_37= co->res;
+Obj v__3518742_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun72, 2, 0), v__3518658_37, v__3518659_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun73, 2, 0), v__3518742_37, v__3518743_37);
 return;
 }
 case 2:
 {
-Obj v__3518653_37= co->res;
+Obj v__3518737_37= co->res;
 Obj v_lam = R[1];
-Obj v__3517601_37 = v__3518653_37;
-Obj v__3518658_37 = PRIM_ADD(v__3517601_37, MAKE_NUMBER(1));
-R[1] = v__3518658_37;
-saveCont(co, clofun73, 1, R);
+Obj v__3517670_37 = v__3518737_37;
+Obj v__3518742_37 = PRIM_ADD(v__3517670_37, MAKE_NUMBER(1));
+R[1] = v__3518742_37;
+saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj v__3518652_37= co->res;
+Obj v__3518736_37= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
-saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518652_37);
+saveCont(co, clofun74, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518736_37);
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_acc = R[1];
 Obj v_x = R[2];
 R[1] = v_acc;
-saveCont(co, clofun72, 2, R);
+saveCont(co, clofun73, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
 return;
 }
 case 1:
 {
-Obj v__3518655_37= co->res;
+Obj v__3518739_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518656_37 = PRIM_ADD(v__3518655_37, MAKE_NUMBER(1));
-Obj v__3517602_37 = v__3518656_37;
-Obj v__3518657_37 = PRIM_GT(v__3517602_37, v_acc);
-if (True == v__3518657_37) {
-coraReturn(co, v__3517602_37);
+Obj v__3518740_37 = PRIM_ADD(v__3518739_37, MAKE_NUMBER(1));
+Obj v__3517671_37 = v__3518740_37;
+Obj v__3518741_37 = PRIM_GT(v__3517671_37, v_acc);
+if (True == v__3518741_37) {
+coraReturn(co, v__3517671_37);
 return;
 } else {
 coraReturn(co, v_acc);
@@ -5046,75 +5047,75 @@ return;
 }
 case 2:
 {
-Obj v__3518654_37= co->res;
+Obj v__3518738_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
-saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518654_37);
+saveCont(co, clofun73, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518738_37);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_params = R[1];
 Obj v_body = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun70, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun71, 2, 1, v_params));
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_body1 = R[1];
 Obj v_conts = R[2];
 R[1] = v_body1;
-saveCont(co, clofun70, 1, R);
+saveCont(co, clofun71, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_conts);
 return;
 }
 case 1:
 {
-Obj v__3518647_37= co->res;
+Obj v__3518731_37= co->res;
 Obj v_body1 = R[1];
-Obj v__3518648_37 = makeCons(co->gc, v_body1, v__3518647_37);
-Obj v__3518649_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518648_37);
-Obj v__3518650_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518649_37);
-coraReturn(co, v__3518650_37);
+Obj v__3518732_37 = makeCons(co->gc, v_body1, v__3518731_37);
+Obj v__3518733_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518732_37);
+Obj v__3518734_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518733_37);
+coraReturn(co, v__3518734_37);
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517382_37 = R[1];
-Obj v__3517383_37 = R[2];
-Obj v__3517384_37 = R[3];
-Obj v__3517385_37 = R[4];
-Obj v__3518641_37 = PRIM_EQ(Nil, v__3517382_37);
-if (True == v__3518641_37) {
+Obj v__3517448_37 = R[1];
+Obj v__3517449_37 = R[2];
+Obj v__3517450_37 = R[3];
+Obj v__3517451_37 = R[4];
+Obj v__3518725_37 = PRIM_EQ(Nil, v__3517448_37);
+if (True == v__3518725_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3517385_37, v__3517384_37, v__3517383_37);
+coraCall2(co, v__3517451_37, v__3517450_37, v__3517449_37);
 return;
 } else {
-Obj v__3518642_37 = PRIM_ISCONS(v__3517382_37);
-if (True == v__3518642_37) {
-Obj v__3518643_37 = PRIM_CAR(v__3517382_37);
-Obj v__3517599_37 = v__3518643_37;
-Obj v__3518644_37 = PRIM_CDR(v__3517382_37);
-Obj v__3517600_37 = v__3518644_37;
+Obj v__3518726_37 = PRIM_ISCONS(v__3517448_37);
+if (True == v__3518726_37) {
+Obj v__3518727_37 = PRIM_CAR(v__3517448_37);
+Obj v__3517668_37 = v__3518727_37;
+Obj v__3518728_37 = PRIM_CDR(v__3517448_37);
+Obj v__3517669_37 = v__3518728_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517599_37, v__3517383_37, makeNative(co->gc, 3, clofun68, 2, 3, v__3517600_37, v__3517384_37, v__3517385_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517668_37, v__3517449_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3517669_37, v__3517450_37, v__3517451_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5126,131 +5127,131 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_f1 = R[1];
 Obj v_conts1 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun67, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun68, 2, 2, closureRef(R[0], 2), v_f1));
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v__3518645_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v__3518729_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518645_37, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v__3518729_37, v_conts2);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517376_37 = R[1];
-Obj v__3517377_37 = R[2];
-Obj v__3517378_37 = R[3];
-Obj v__3517592_37 = makeNative(co->gc, 2, clofun65, 1, 3, v__3517376_37, v__3517377_37, v__3517378_37);
-Obj v__3518638_37 = primIsSymbol(v__3517376_37);
-if (True == v__3518638_37) {
+Obj v__3517442_37 = R[1];
+Obj v__3517443_37 = R[2];
+Obj v__3517444_37 = R[3];
+Obj v__3517661_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3517442_37, v__3517443_37, v__3517444_37);
+Obj v__3518722_37 = primIsSymbol(v__3517442_37);
+if (True == v__3518722_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517592_37, True);
+coraCall1(co, v__3517661_37, True);
 return;
 } else {
-R[1] = v__3517592_37;
-saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517376_37);
+R[1] = v__3517661_37;
+saveCont(co, clofun67, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517442_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518639_37= co->res;
-Obj v__3517592_37 = R[1];
-if (True == v__3518639_37) {
+Obj v__3518723_37= co->res;
+Obj v__3517661_37 = R[1];
+if (True == v__3518723_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517592_37, True);
+coraCall1(co, v__3517661_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517592_37, False);
+coraCall1(co, v__3517661_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517591_37 = R[1];
-if (True == v__3517591_37) {
+Obj v__3517660_37 = R[1];
+if (True == v__3517660_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517593_37 = makeNative(co->gc, 1, clofun63, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518614_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518614_37) {
-Obj v__3518615_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518616_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518615_37);
-if (True == v__3518616_37) {
-Obj v__3518617_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518618_37 = PRIM_ISCONS(v__3518617_37);
-if (True == v__3518618_37) {
-Obj v__3518619_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518620_37 = PRIM_CAR(v__3518619_37);
-Obj v__3517596_37 = v__3518620_37;
-Obj v__3518621_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518622_37 = PRIM_CDR(v__3518621_37);
-Obj v__3518623_37 = PRIM_ISCONS(v__3518622_37);
-if (True == v__3518623_37) {
-Obj v__3518624_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518625_37 = PRIM_CDR(v__3518624_37);
-Obj v__3518626_37 = PRIM_CAR(v__3518625_37);
-Obj v__3517597_37 = v__3518626_37;
-Obj v__3518627_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518628_37 = PRIM_CDR(v__3518627_37);
-Obj v__3518629_37 = PRIM_CDR(v__3518628_37);
-Obj v__3518630_37 = PRIM_EQ(Nil, v__3518629_37);
-if (True == v__3518630_37) {
+Obj v__3517662_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518698_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518698_37) {
+Obj v__3518699_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518700_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518699_37);
+if (True == v__3518700_37) {
+Obj v__3518701_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518702_37 = PRIM_ISCONS(v__3518701_37);
+if (True == v__3518702_37) {
+Obj v__3518703_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518704_37 = PRIM_CAR(v__3518703_37);
+Obj v__3517665_37 = v__3518704_37;
+Obj v__3518705_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518706_37 = PRIM_CDR(v__3518705_37);
+Obj v__3518707_37 = PRIM_ISCONS(v__3518706_37);
+if (True == v__3518707_37) {
+Obj v__3518708_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518709_37 = PRIM_CDR(v__3518708_37);
+Obj v__3518710_37 = PRIM_CAR(v__3518709_37);
+Obj v__3517666_37 = v__3518710_37;
+Obj v__3518711_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518712_37 = PRIM_CDR(v__3518711_37);
+Obj v__3518713_37 = PRIM_CDR(v__3518712_37);
+Obj v__3518714_37 = PRIM_EQ(Nil, v__3518713_37);
+if (True == v__3518714_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517597_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun64, 2, 2, closureRef(R[0], 2), v__3517596_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517666_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3517665_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517593_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517593_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517593_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517593_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517593_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 }
@@ -5258,7 +5259,7 @@ return;
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -5266,54 +5267,54 @@ Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
 R[1] = v_cont1;
 R[2] = v_conts1;
-saveCont(co, clofun64, 2, R);
+saveCont(co, clofun65, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
 return;
 }
 case 1:
 {
-Obj v__3518632_37= co->res;
-Obj v__3517598_37 = R[1];
+Obj v__3518716_37= co->res;
+Obj v__3517667_37 = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v__3518633_37 = PRIM_ADD(v__3518632_37, MAKE_NUMBER(1));
-Obj v__3518634_37 = makeCons(co->gc, v__3518633_37, v__3517598_37);
-Obj v__3518635_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518634_37);
-Obj v__3518636_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518635_37);
-Obj v__3518637_37 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v__3518717_37 = PRIM_ADD(v__3518716_37, MAKE_NUMBER(1));
+Obj v__3518718_37 = makeCons(co->gc, v__3518717_37, v__3517667_37);
+Obj v__3518719_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518718_37);
+Obj v__3518720_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518719_37);
+Obj v__3518721_37 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518636_37, v__3518637_37);
+coraCall2(co, closureRef(R[0], 0), v__3518720_37, v__3518721_37);
 return;
 }
 case 2:
 {
-Obj v__3518631_37= co->res;
+Obj v__3518715_37= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v__3517598_37 = v__3518631_37;
-R[1] = v__3517598_37;
+Obj v__3517667_37 = v__3518715_37;
+R[1] = v__3517667_37;
 R[2] = v_cont1;
 R[3] = v_conts1;
-saveCont(co, clofun64, 1, R);
+saveCont(co, clofun65, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_conts1);
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518610_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518610_37) {
-Obj v__3518611_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517594_37 = v__3518611_37;
-Obj v__3518612_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517595_37 = v__3518612_37;
-Obj v__3518613_37 = makeCons(co->gc, v__3517594_37, v__3517595_37);
+Obj v__3518694_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518694_37) {
+Obj v__3518695_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517663_37 = v__3518695_37;
+Obj v__3518696_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517664_37 = v__3518696_37;
+Obj v__3518697_37 = makeCons(co->gc, v__3517663_37, v__3517664_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3518613_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3518697_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5324,94 +5325,94 @@ return;
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517368_37 = R[1];
-Obj v__3517369_37 = R[2];
-R[1] = v__3517369_37;
-R[2] = v__3517368_37;
-saveCont(co, clofun62, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517369_37);
+Obj v__3517434_37 = R[1];
+Obj v__3517435_37 = R[2];
+R[1] = v__3517435_37;
+R[2] = v__3517434_37;
+saveCont(co, clofun63, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517435_37);
 return;
 }
 case 1:
 {
-Obj v__3518605_37= co->res;
-Obj v__3517588_37 = R[1];
-Obj v__3518606_37 = makeCons(co->gc, v__3518605_37, Nil);
-Obj v__3518607_37 = makeCons(co->gc, v__3517588_37, v__3518606_37);
-Obj v__3518608_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518607_37);
-coraReturn(co, v__3518608_37);
+Obj v__3518689_37= co->res;
+Obj v__3517657_37 = R[1];
+Obj v__3518690_37 = makeCons(co->gc, v__3518689_37, Nil);
+Obj v__3518691_37 = makeCons(co->gc, v__3517657_37, v__3518690_37);
+Obj v__3518692_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518691_37);
+coraReturn(co, v__3518692_37);
 return;
 }
 case 2:
 {
-Obj v__3518533_37= co->res;
-Obj v__3517369_37 = R[1];
-Obj v__3517368_37 = R[2];
-if (True == v__3518533_37) {
-coraReturn(co, v__3517369_37);
+Obj v__3518617_37= co->res;
+Obj v__3517435_37 = R[1];
+Obj v__3517434_37 = R[2];
+if (True == v__3518617_37) {
+coraReturn(co, v__3517435_37);
 return;
 } else {
-Obj v__3518534_37 = primIsSymbol(v__3517369_37);
-if (True == v__3518534_37) {
-coraReturn(co, v__3517369_37);
+Obj v__3518618_37 = primIsSymbol(v__3517435_37);
+if (True == v__3518618_37) {
+coraReturn(co, v__3517435_37);
 return;
 } else {
-Obj v__3517577_37 = makeNative(co->gc, 4, clofun61, 0, 2, v__3517369_37, v__3517368_37);
-Obj v__3518588_37 = PRIM_ISCONS(v__3517369_37);
-if (True == v__3518588_37) {
-Obj v__3518589_37 = PRIM_CAR(v__3517369_37);
-Obj v__3518590_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518589_37);
-if (True == v__3518590_37) {
-Obj v__3518591_37 = PRIM_CDR(v__3517369_37);
-Obj v__3518592_37 = PRIM_ISCONS(v__3518591_37);
-if (True == v__3518592_37) {
-Obj v__3518593_37 = PRIM_CDR(v__3517369_37);
-Obj v__3518594_37 = PRIM_CAR(v__3518593_37);
-Obj v__3517588_37 = v__3518594_37;
-Obj v__3518595_37 = PRIM_CDR(v__3517369_37);
-Obj v__3518596_37 = PRIM_CDR(v__3518595_37);
-Obj v__3518597_37 = PRIM_ISCONS(v__3518596_37);
-if (True == v__3518597_37) {
-Obj v__3518598_37 = PRIM_CDR(v__3517369_37);
-Obj v__3518599_37 = PRIM_CDR(v__3518598_37);
-Obj v__3518600_37 = PRIM_CAR(v__3518599_37);
-Obj v__3517589_37 = v__3518600_37;
-Obj v__3518601_37 = PRIM_CDR(v__3517369_37);
-Obj v__3518602_37 = PRIM_CDR(v__3518601_37);
-Obj v__3518603_37 = PRIM_CDR(v__3518602_37);
-Obj v__3518604_37 = PRIM_EQ(Nil, v__3518603_37);
-if (True == v__3518604_37) {
-R[1] = v__3517588_37;
-saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517368_37, v__3517589_37);
+Obj v__3517646_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3517435_37, v__3517434_37);
+Obj v__3518672_37 = PRIM_ISCONS(v__3517435_37);
+if (True == v__3518672_37) {
+Obj v__3518673_37 = PRIM_CAR(v__3517435_37);
+Obj v__3518674_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518673_37);
+if (True == v__3518674_37) {
+Obj v__3518675_37 = PRIM_CDR(v__3517435_37);
+Obj v__3518676_37 = PRIM_ISCONS(v__3518675_37);
+if (True == v__3518676_37) {
+Obj v__3518677_37 = PRIM_CDR(v__3517435_37);
+Obj v__3518678_37 = PRIM_CAR(v__3518677_37);
+Obj v__3517657_37 = v__3518678_37;
+Obj v__3518679_37 = PRIM_CDR(v__3517435_37);
+Obj v__3518680_37 = PRIM_CDR(v__3518679_37);
+Obj v__3518681_37 = PRIM_ISCONS(v__3518680_37);
+if (True == v__3518681_37) {
+Obj v__3518682_37 = PRIM_CDR(v__3517435_37);
+Obj v__3518683_37 = PRIM_CDR(v__3518682_37);
+Obj v__3518684_37 = PRIM_CAR(v__3518683_37);
+Obj v__3517658_37 = v__3518684_37;
+Obj v__3518685_37 = PRIM_CDR(v__3517435_37);
+Obj v__3518686_37 = PRIM_CDR(v__3518685_37);
+Obj v__3518687_37 = PRIM_CDR(v__3518686_37);
+Obj v__3518688_37 = PRIM_EQ(Nil, v__3518687_37);
+if (True == v__3518688_37) {
+R[1] = v__3517657_37;
+saveCont(co, clofun63, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517434_37, v__3517658_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517646_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517646_37);
 return;
 }
 }
@@ -5420,235 +5421,235 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517578_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518563_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518563_37) {
-Obj v__3518564_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518565_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518564_37);
-if (True == v__3518565_37) {
-Obj v__3518566_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518567_37 = PRIM_ISCONS(v__3518566_37);
-if (True == v__3518567_37) {
-Obj v__3518568_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518569_37 = PRIM_CAR(v__3518568_37);
-Obj v__3517584_37 = v__3518569_37;
-Obj v__3518570_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518571_37 = PRIM_CDR(v__3518570_37);
-Obj v__3518572_37 = PRIM_ISCONS(v__3518571_37);
-if (True == v__3518572_37) {
-Obj v__3518573_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518574_37 = PRIM_CDR(v__3518573_37);
-Obj v__3518575_37 = PRIM_CAR(v__3518574_37);
-Obj v__3517585_37 = v__3518575_37;
-Obj v__3518576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518577_37 = PRIM_CDR(v__3518576_37);
-Obj v__3518578_37 = PRIM_CDR(v__3518577_37);
-Obj v__3518579_37 = PRIM_EQ(Nil, v__3518578_37);
-if (True == v__3518579_37) {
-R[1] = v__3517585_37;
-R[2] = v__3517584_37;
-saveCont(co, clofun61, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517585_37);
+Obj v__3517647_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518647_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518647_37) {
+Obj v__3518648_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518649_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518648_37);
+if (True == v__3518649_37) {
+Obj v__3518650_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518651_37 = PRIM_ISCONS(v__3518650_37);
+if (True == v__3518651_37) {
+Obj v__3518652_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518653_37 = PRIM_CAR(v__3518652_37);
+Obj v__3517653_37 = v__3518653_37;
+Obj v__3518654_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518655_37 = PRIM_CDR(v__3518654_37);
+Obj v__3518656_37 = PRIM_ISCONS(v__3518655_37);
+if (True == v__3518656_37) {
+Obj v__3518657_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518658_37 = PRIM_CDR(v__3518657_37);
+Obj v__3518659_37 = PRIM_CAR(v__3518658_37);
+Obj v__3517654_37 = v__3518659_37;
+Obj v__3518660_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518661_37 = PRIM_CDR(v__3518660_37);
+Obj v__3518662_37 = PRIM_CDR(v__3518661_37);
+Obj v__3518663_37 = PRIM_EQ(Nil, v__3518662_37);
+if (True == v__3518663_37) {
+R[1] = v__3517654_37;
+R[2] = v__3517653_37;
+saveCont(co, clofun62, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517654_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517578_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517578_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517578_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517578_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517578_37);
+coraCall0(co, v__3517647_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518584_37= co->res;
-Obj v__3517587_37 = R[1];
-Obj v__3517584_37 = R[2];
-Obj v__3518585_37 = makeCons(co->gc, v__3518584_37, v__3517587_37);
-Obj v__3518586_37 = makeCons(co->gc, v__3517584_37, v__3518585_37);
-Obj v__3518587_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3518586_37);
-coraReturn(co, v__3518587_37);
+Obj v__3518668_37= co->res;
+Obj v__3517656_37 = R[1];
+Obj v__3517653_37 = R[2];
+Obj v__3518669_37 = makeCons(co->gc, v__3518668_37, v__3517656_37);
+Obj v__3518670_37 = makeCons(co->gc, v__3517653_37, v__3518669_37);
+Obj v__3518671_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3518670_37);
+coraReturn(co, v__3518671_37);
 return;
 }
 case 2:
 {
-Obj v__3518583_37= co->res;
-Obj v__3517586_37 = R[1];
-Obj v__3517585_37 = R[2];
-Obj v__3517584_37 = R[3];
-Obj v__3517587_37 = v__3518583_37;
-R[1] = v__3517587_37;
-R[2] = v__3517584_37;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517586_37, v__3517585_37);
+Obj v__3518667_37= co->res;
+Obj v__3517655_37 = R[1];
+Obj v__3517654_37 = R[2];
+Obj v__3517653_37 = R[3];
+Obj v__3517656_37 = v__3518667_37;
+R[1] = v__3517656_37;
+R[2] = v__3517653_37;
+saveCont(co, clofun62, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517655_37, v__3517654_37);
 return;
 }
 case 3:
 {
-Obj v__3518582_37= co->res;
-Obj v__3517586_37 = R[1];
-Obj v__3517585_37 = R[2];
-Obj v__3517584_37 = R[3];
-R[1] = v__3517586_37;
-R[2] = v__3517585_37;
-R[3] = v__3517584_37;
-saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518582_37, v__3517586_37);
+Obj v__3518666_37= co->res;
+Obj v__3517655_37 = R[1];
+Obj v__3517654_37 = R[2];
+Obj v__3517653_37 = R[3];
+R[1] = v__3517655_37;
+R[2] = v__3517654_37;
+R[3] = v__3517653_37;
+saveCont(co, clofun62, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518666_37, v__3517655_37);
 return;
 }
 case 4:
 {
-Obj v__3518581_37= co->res;
-Obj v__3517585_37 = R[1];
-Obj v__3517584_37 = R[2];
-Obj v__3517586_37 = v__3518581_37;
-R[1] = v__3517586_37;
-R[2] = v__3517585_37;
-R[3] = v__3517584_37;
-saveCont(co, clofun61, 3, R);
+Obj v__3518665_37= co->res;
+Obj v__3517654_37 = R[1];
+Obj v__3517653_37 = R[2];
+Obj v__3517655_37 = v__3518665_37;
+R[1] = v__3517655_37;
+R[2] = v__3517654_37;
+R[3] = v__3517653_37;
+saveCont(co, clofun62, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3518580_37= co->res;
-Obj v__3517585_37 = R[1];
-Obj v__3517584_37 = R[2];
-R[1] = v__3517585_37;
-R[2] = v__3517584_37;
-saveCont(co, clofun61, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518580_37, v__3517584_37);
+Obj v__3518664_37= co->res;
+Obj v__3517654_37 = R[1];
+Obj v__3517653_37 = R[2];
+R[1] = v__3517654_37;
+R[2] = v__3517653_37;
+saveCont(co, clofun62, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518664_37, v__3517653_37);
 return;
 }
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517579_37 = makeNative(co->gc, 3, clofun59, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518540_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518540_37) {
-Obj v__3518541_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518542_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518541_37);
-if (True == v__3518542_37) {
-Obj v__3518543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518544_37 = PRIM_ISCONS(v__3518543_37);
-if (True == v__3518544_37) {
-Obj v__3518545_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518546_37 = PRIM_CAR(v__3518545_37);
-Obj v__3517582_37 = v__3518546_37;
-Obj v__3518547_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518548_37 = PRIM_CDR(v__3518547_37);
-Obj v__3518549_37 = PRIM_ISCONS(v__3518548_37);
-if (True == v__3518549_37) {
-Obj v__3518550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518551_37 = PRIM_CDR(v__3518550_37);
-Obj v__3518552_37 = PRIM_CAR(v__3518551_37);
-Obj v__3517583_37 = v__3518552_37;
-Obj v__3518553_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518554_37 = PRIM_CDR(v__3518553_37);
-Obj v__3518555_37 = PRIM_CDR(v__3518554_37);
-Obj v__3518556_37 = PRIM_EQ(Nil, v__3518555_37);
-if (True == v__3518556_37) {
-R[1] = v__3517582_37;
-R[2] = v__3517583_37;
-saveCont(co, clofun60, 3, R);
+Obj v__3517648_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518624_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518624_37) {
+Obj v__3518625_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518626_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518625_37);
+if (True == v__3518626_37) {
+Obj v__3518627_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518628_37 = PRIM_ISCONS(v__3518627_37);
+if (True == v__3518628_37) {
+Obj v__3518629_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518630_37 = PRIM_CAR(v__3518629_37);
+Obj v__3517651_37 = v__3518630_37;
+Obj v__3518631_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518632_37 = PRIM_CDR(v__3518631_37);
+Obj v__3518633_37 = PRIM_ISCONS(v__3518632_37);
+if (True == v__3518633_37) {
+Obj v__3518634_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518635_37 = PRIM_CDR(v__3518634_37);
+Obj v__3518636_37 = PRIM_CAR(v__3518635_37);
+Obj v__3517652_37 = v__3518636_37;
+Obj v__3518637_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518638_37 = PRIM_CDR(v__3518637_37);
+Obj v__3518639_37 = PRIM_CDR(v__3518638_37);
+Obj v__3518640_37 = PRIM_EQ(Nil, v__3518639_37);
+if (True == v__3518640_37) {
+R[1] = v__3517651_37;
+R[2] = v__3517652_37;
+saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517648_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518559_37= co->res;
-Obj v__3518558_37 = R[1];
-Obj v__3518560_37 = makeCons(co->gc, v__3518559_37, Nil);
-Obj v__3518561_37 = makeCons(co->gc, v__3518558_37, v__3518560_37);
-Obj v__3518562_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518561_37);
-coraReturn(co, v__3518562_37);
+Obj v__3518643_37= co->res;
+Obj v__3518642_37 = R[1];
+Obj v__3518644_37 = makeCons(co->gc, v__3518643_37, Nil);
+Obj v__3518645_37 = makeCons(co->gc, v__3518642_37, v__3518644_37);
+Obj v__3518646_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518645_37);
+coraReturn(co, v__3518646_37);
 return;
 }
 case 2:
 {
-Obj v__3518558_37= co->res;
-Obj v__3517583_37 = R[1];
-R[1] = v__3518558_37;
-saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3517583_37);
+Obj v__3518642_37= co->res;
+Obj v__3517652_37 = R[1];
+R[1] = v__3518642_37;
+saveCont(co, clofun61, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3517652_37);
 return;
 }
 case 3:
 {
-Obj v__3518557_37= co->res;
-Obj v__3517582_37 = R[1];
-Obj v__3517583_37 = R[2];
-R[1] = v__3517583_37;
-saveCont(co, clofun60, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518557_37, v__3517582_37);
+Obj v__3518641_37= co->res;
+Obj v__3517651_37 = R[1];
+Obj v__3517652_37 = R[2];
+R[1] = v__3517652_37;
+saveCont(co, clofun61, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518641_37, v__3517651_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518535_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518535_37) {
-Obj v__3518536_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517580_37 = v__3518536_37;
-Obj v__3518537_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517581_37 = v__3518537_37;
-R[1] = v__3517580_37;
-R[2] = v__3517581_37;
-saveCont(co, clofun59, 1, R);
+Obj v__3518619_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518619_37) {
+Obj v__3518620_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517649_37 = v__3518620_37;
+Obj v__3518621_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517650_37 = v__3518621_37;
+R[1] = v__3517649_37;
+R[2] = v__3517650_37;
+saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
@@ -5659,39 +5660,39 @@ return;
 }
 case 1:
 {
-Obj v__3518538_37= co->res;
-Obj v__3517580_37 = R[1];
-Obj v__3517581_37 = R[2];
-Obj v__3518539_37 = makeCons(co->gc, v__3517580_37, v__3517581_37);
+Obj v__3518622_37= co->res;
+Obj v__3517649_37 = R[1];
+Obj v__3517650_37 = R[2];
+Obj v__3518623_37 = makeCons(co->gc, v__3517649_37, v__3517650_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518538_37, v__3518539_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518622_37, v__3518623_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517363_37 = R[1];
-Obj v__3517364_37 = R[2];
-Obj v__3517365_37 = R[3];
-Obj v__3518510_37 = PRIM_EQ(Nil, v__3517363_37);
-if (True == v__3518510_37) {
-R[1] = v__3517365_37;
-saveCont(co, clofun58, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517364_37);
+Obj v__3517429_37 = R[1];
+Obj v__3517430_37 = R[2];
+Obj v__3517431_37 = R[3];
+Obj v__3518594_37 = PRIM_EQ(Nil, v__3517429_37);
+if (True == v__3518594_37) {
+R[1] = v__3517431_37;
+saveCont(co, clofun59, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517430_37);
 return;
 } else {
-Obj v__3518528_37 = PRIM_ISCONS(v__3517363_37);
-if (True == v__3518528_37) {
-Obj v__3518529_37 = PRIM_CAR(v__3517363_37);
-Obj v__3517575_37 = v__3518529_37;
-Obj v__3518530_37 = PRIM_CDR(v__3517363_37);
-Obj v__3517576_37 = v__3518530_37;
+Obj v__3518612_37 = PRIM_ISCONS(v__3517429_37);
+if (True == v__3518612_37) {
+Obj v__3518613_37 = PRIM_CAR(v__3517429_37);
+Obj v__3517644_37 = v__3518613_37;
+Obj v__3518614_37 = PRIM_CDR(v__3517429_37);
+Obj v__3517645_37 = v__3518614_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517575_37, makeNative(co->gc, 2, clofun57, 1, 3, v__3517576_37, v__3517364_37, v__3517365_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517644_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3517645_37, v__3517430_37, v__3517431_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5702,232 +5703,232 @@ return;
 }
 case 1:
 {
-Obj v__3518526_37= co->res;
-Obj v__3517573_37 = R[1];
-Obj v__3518527_37 = PRIM_EQ(v__3518526_37, getBinding(co, packageID, 91).name);
-if (True == v__3518527_37) {
+Obj v__3518610_37= co->res;
+Obj v__3517642_37 = R[1];
+Obj v__3518611_37 = PRIM_EQ(v__3518610_37, getBinding(co, packageID, 91).name);
+if (True == v__3518611_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517573_37, True);
+coraCall1(co, v__3517642_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517573_37, False);
+coraCall1(co, v__3517642_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518525_37= co->res;
-Obj v__3517570_37 = R[1];
-Obj v__3517573_37 = R[2];
-if (True == v__3518525_37) {
-R[1] = v__3517573_37;
-saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3517570_37);
+Obj v__3518609_37= co->res;
+Obj v__3517639_37 = R[1];
+Obj v__3517642_37 = R[2];
+if (True == v__3518609_37) {
+R[1] = v__3517642_37;
+saveCont(co, clofun59, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3517639_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517573_37, False);
+coraCall1(co, v__3517642_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3518511_37= co->res;
-Obj v__3517365_37 = R[1];
-Obj v__3517570_37 = v__3518511_37;
-Obj v__3517573_37 = makeNative(co->gc, 2, clofun56, 1, 2, v__3517570_37, v__3517365_37);
-Obj v__3518524_37 = PRIM_CAR(v__3517570_37);
-R[1] = v__3517570_37;
-R[2] = v__3517573_37;
-saveCont(co, clofun58, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3518524_37);
+Obj v__3518595_37= co->res;
+Obj v__3517431_37 = R[1];
+Obj v__3517639_37 = v__3518595_37;
+Obj v__3517642_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3517639_37, v__3517431_37);
+Obj v__3518608_37 = PRIM_CAR(v__3517639_37);
+R[1] = v__3517639_37;
+R[2] = v__3517642_37;
+saveCont(co, clofun59, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3518608_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v__3518531_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v__3518615_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3518531_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3518615_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517572_37 = R[1];
-if (True == v__3517572_37) {
+Obj v__3517641_37 = R[1];
+if (True == v__3517641_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3518512_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == v__3518512_37) {
-Obj v__3518513_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3518514_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518513_37);
-coraReturn(co, v__3518514_37);
+Obj v__3518596_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == v__3518596_37) {
+Obj v__3518597_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3518598_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518597_37);
+coraReturn(co, v__3518598_37);
 return;
 } else {
-Obj v__3518515_37 = primGenSym(co);
-Obj v__3517574_37 = v__3518515_37;
-Obj v__3518516_37 = makeCons(co->gc, v__3517574_37, Nil);
-R[1] = v__3518516_37;
-saveCont(co, clofun56, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3517574_37);
+Obj v__3518599_37 = primGenSym(co);
+Obj v__3517643_37 = v__3518599_37;
+Obj v__3518600_37 = makeCons(co->gc, v__3517643_37, Nil);
+R[1] = v__3518600_37;
+saveCont(co, clofun57, 1, R);
+coraCall1(co, closureRef(R[0], 1), v__3517643_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518517_37= co->res;
-Obj v__3518516_37 = R[1];
-Obj v__3518518_37 = makeCons(co->gc, v__3518517_37, Nil);
-Obj v__3518519_37 = makeCons(co->gc, v__3518516_37, v__3518518_37);
-Obj v__3518520_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518519_37);
-Obj v__3518521_37 = makeCons(co->gc, v__3518520_37, Nil);
-Obj v__3518522_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518521_37);
-Obj v__3518523_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518522_37);
-coraReturn(co, v__3518523_37);
+Obj v__3518601_37= co->res;
+Obj v__3518600_37 = R[1];
+Obj v__3518602_37 = makeCons(co->gc, v__3518601_37, Nil);
+Obj v__3518603_37 = makeCons(co->gc, v__3518600_37, v__3518602_37);
+Obj v__3518604_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518603_37);
+Obj v__3518605_37 = makeCons(co->gc, v__3518604_37, Nil);
+Obj v__3518606_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518605_37);
+Obj v__3518607_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518606_37);
+coraReturn(co, v__3518607_37);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517354_37 = R[1];
-Obj v__3517355_37 = R[2];
-Obj v__3517552_37 = makeNative(co->gc, 2, clofun54, 1, 2, v__3517354_37, v__3517355_37);
-Obj v__3518507_37 = primIsSymbol(v__3517354_37);
-if (True == v__3518507_37) {
+Obj v__3517420_37 = R[1];
+Obj v__3517421_37 = R[2];
+Obj v__3517621_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3517420_37, v__3517421_37);
+Obj v__3518591_37 = primIsSymbol(v__3517420_37);
+if (True == v__3518591_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517552_37, True);
+coraCall1(co, v__3517621_37, True);
 return;
 } else {
-R[1] = v__3517552_37;
-saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517354_37);
+R[1] = v__3517621_37;
+saveCont(co, clofun56, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517420_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518508_37= co->res;
-Obj v__3517552_37 = R[1];
-if (True == v__3518508_37) {
+Obj v__3518592_37= co->res;
+Obj v__3517621_37 = R[1];
+if (True == v__3518592_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517552_37, True);
+coraCall1(co, v__3517621_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517552_37, False);
+coraCall1(co, v__3517621_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517551_37 = R[1];
-if (True == v__3517551_37) {
+Obj v__3517620_37 = R[1];
+if (True == v__3517620_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun54, 1, R);
+saveCont(co, clofun55, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v__3518373_37= co->res;
-if (True == v__3518373_37) {
+Obj v__3518457_37= co->res;
+if (True == v__3518457_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3517553_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518475_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518475_37) {
-Obj v__3518476_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518477_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518476_37);
-if (True == v__3518477_37) {
-Obj v__3518478_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518479_37 = PRIM_ISCONS(v__3518478_37);
-if (True == v__3518479_37) {
-Obj v__3518480_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518481_37 = PRIM_CAR(v__3518480_37);
-Obj v__3517567_37 = v__3518481_37;
-Obj v__3518482_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518483_37 = PRIM_CDR(v__3518482_37);
-Obj v__3518484_37 = PRIM_ISCONS(v__3518483_37);
-if (True == v__3518484_37) {
-Obj v__3518485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518486_37 = PRIM_CDR(v__3518485_37);
-Obj v__3518487_37 = PRIM_CAR(v__3518486_37);
-Obj v__3517568_37 = v__3518487_37;
-Obj v__3518488_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
-Obj v__3518490_37 = PRIM_CDR(v__3518489_37);
-Obj v__3518491_37 = PRIM_ISCONS(v__3518490_37);
-if (True == v__3518491_37) {
-Obj v__3518492_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518493_37 = PRIM_CDR(v__3518492_37);
-Obj v__3518494_37 = PRIM_CDR(v__3518493_37);
-Obj v__3518495_37 = PRIM_CAR(v__3518494_37);
-Obj v__3517569_37 = v__3518495_37;
-Obj v__3518496_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518497_37 = PRIM_CDR(v__3518496_37);
-Obj v__3518498_37 = PRIM_CDR(v__3518497_37);
-Obj v__3518499_37 = PRIM_CDR(v__3518498_37);
-Obj v__3518500_37 = PRIM_EQ(Nil, v__3518499_37);
-if (True == v__3518500_37) {
+Obj v__3517622_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518559_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518559_37) {
+Obj v__3518560_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518561_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518560_37);
+if (True == v__3518561_37) {
+Obj v__3518562_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518563_37 = PRIM_ISCONS(v__3518562_37);
+if (True == v__3518563_37) {
+Obj v__3518564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518565_37 = PRIM_CAR(v__3518564_37);
+Obj v__3517636_37 = v__3518565_37;
+Obj v__3518566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518567_37 = PRIM_CDR(v__3518566_37);
+Obj v__3518568_37 = PRIM_ISCONS(v__3518567_37);
+if (True == v__3518568_37) {
+Obj v__3518569_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518570_37 = PRIM_CDR(v__3518569_37);
+Obj v__3518571_37 = PRIM_CAR(v__3518570_37);
+Obj v__3517637_37 = v__3518571_37;
+Obj v__3518572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518573_37 = PRIM_CDR(v__3518572_37);
+Obj v__3518574_37 = PRIM_CDR(v__3518573_37);
+Obj v__3518575_37 = PRIM_ISCONS(v__3518574_37);
+if (True == v__3518575_37) {
+Obj v__3518576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518577_37 = PRIM_CDR(v__3518576_37);
+Obj v__3518578_37 = PRIM_CDR(v__3518577_37);
+Obj v__3518579_37 = PRIM_CAR(v__3518578_37);
+Obj v__3517638_37 = v__3518579_37;
+Obj v__3518580_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518581_37 = PRIM_CDR(v__3518580_37);
+Obj v__3518582_37 = PRIM_CDR(v__3518581_37);
+Obj v__3518583_37 = PRIM_CDR(v__3518582_37);
+Obj v__3518584_37 = PRIM_EQ(Nil, v__3518583_37);
+if (True == v__3518584_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517567_37, makeNative(co->gc, 3, clofun53, 1, 3, v__3517568_37, v__3517569_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517636_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3517637_37, v__3517638_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517553_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517553_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517553_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517553_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517553_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517553_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 }
@@ -5935,363 +5936,363 @@ return;
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
 R[1] = v_ra;
-saveCont(co, clofun53, 2, R);
+saveCont(co, clofun54, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518502_37= co->res;
-Obj v__3518501_37 = R[1];
+Obj v__3518586_37= co->res;
+Obj v__3518585_37 = R[1];
 Obj v_ra = R[2];
-Obj v__3518503_37 = makeCons(co->gc, v__3518502_37, Nil);
-Obj v__3518504_37 = makeCons(co->gc, v__3518501_37, v__3518503_37);
-Obj v__3518505_37 = makeCons(co->gc, v_ra, v__3518504_37);
-Obj v__3518506_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518505_37);
-coraReturn(co, v__3518506_37);
+Obj v__3518587_37 = makeCons(co->gc, v__3518586_37, Nil);
+Obj v__3518588_37 = makeCons(co->gc, v__3518585_37, v__3518587_37);
+Obj v__3518589_37 = makeCons(co->gc, v_ra, v__3518588_37);
+Obj v__3518590_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518589_37);
+coraReturn(co, v__3518590_37);
 return;
 }
 case 2:
 {
-Obj v__3518501_37= co->res;
+Obj v__3518585_37= co->res;
 Obj v_ra = R[1];
-R[1] = v__3518501_37;
+R[1] = v__3518585_37;
 R[2] = v_ra;
-saveCont(co, clofun53, 1, R);
+saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517554_37 = makeNative(co->gc, 1, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518453_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518453_37) {
-Obj v__3518454_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518455_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518454_37);
-if (True == v__3518455_37) {
-Obj v__3518456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518457_37 = PRIM_ISCONS(v__3518456_37);
-if (True == v__3518457_37) {
-Obj v__3518458_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518459_37 = PRIM_CAR(v__3518458_37);
-Obj v__3517565_37 = v__3518459_37;
-Obj v__3518460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518461_37 = PRIM_CDR(v__3518460_37);
-Obj v__3518462_37 = PRIM_ISCONS(v__3518461_37);
-if (True == v__3518462_37) {
-Obj v__3518463_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518464_37 = PRIM_CDR(v__3518463_37);
-Obj v__3518465_37 = PRIM_CAR(v__3518464_37);
-Obj v__3517566_37 = v__3518465_37;
-Obj v__3518466_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518467_37 = PRIM_CDR(v__3518466_37);
-Obj v__3518468_37 = PRIM_CDR(v__3518467_37);
-Obj v__3518469_37 = PRIM_EQ(Nil, v__3518468_37);
-if (True == v__3518469_37) {
+Obj v__3517623_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518537_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518537_37) {
+Obj v__3518538_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518539_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518538_37);
+if (True == v__3518539_37) {
+Obj v__3518540_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518541_37 = PRIM_ISCONS(v__3518540_37);
+if (True == v__3518541_37) {
+Obj v__3518542_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518543_37 = PRIM_CAR(v__3518542_37);
+Obj v__3517634_37 = v__3518543_37;
+Obj v__3518544_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518545_37 = PRIM_CDR(v__3518544_37);
+Obj v__3518546_37 = PRIM_ISCONS(v__3518545_37);
+if (True == v__3518546_37) {
+Obj v__3518547_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518548_37 = PRIM_CDR(v__3518547_37);
+Obj v__3518549_37 = PRIM_CAR(v__3518548_37);
+Obj v__3517635_37 = v__3518549_37;
+Obj v__3518550_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518551_37 = PRIM_CDR(v__3518550_37);
+Obj v__3518552_37 = PRIM_CDR(v__3518551_37);
+Obj v__3518553_37 = PRIM_EQ(Nil, v__3518552_37);
+if (True == v__3518553_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517565_37, makeNative(co->gc, 2, clofun51, 1, 2, v__3517566_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517634_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3517635_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517554_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517554_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517554_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517554_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517554_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v__3518470_37 = primIsSymbol(v_ra);
-if (True == v__3518470_37) {
+Obj v__3518554_37 = primIsSymbol(v_ra);
+if (True == v__3518554_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
 R[1] = v_ra;
-saveCont(co, clofun51, 1, R);
+saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v__3518471_37= co->res;
+Obj v__3518555_37= co->res;
 Obj v_ra = R[1];
-Obj v__3518472_37 = makeCons(co->gc, v__3518471_37, Nil);
-Obj v__3518473_37 = makeCons(co->gc, v_ra, v__3518472_37);
-Obj v__3518474_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518473_37);
-coraReturn(co, v__3518474_37);
+Obj v__3518556_37 = makeCons(co->gc, v__3518555_37, Nil);
+Obj v__3518557_37 = makeCons(co->gc, v_ra, v__3518556_37);
+Obj v__3518558_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518557_37);
+coraReturn(co, v__3518558_37);
 return;
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517555_37 = makeNative(co->gc, 3, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518422_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518422_37) {
-Obj v__3518423_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518424_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518423_37);
-if (True == v__3518424_37) {
-Obj v__3518425_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518426_37 = PRIM_ISCONS(v__3518425_37);
-if (True == v__3518426_37) {
-Obj v__3518427_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518428_37 = PRIM_CAR(v__3518427_37);
-Obj v__3517562_37 = v__3518428_37;
-Obj v__3518429_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518430_37 = PRIM_CDR(v__3518429_37);
-Obj v__3518431_37 = PRIM_ISCONS(v__3518430_37);
-if (True == v__3518431_37) {
-Obj v__3518432_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518433_37 = PRIM_CDR(v__3518432_37);
-Obj v__3518434_37 = PRIM_CAR(v__3518433_37);
-Obj v__3517563_37 = v__3518434_37;
-Obj v__3518435_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518436_37 = PRIM_CDR(v__3518435_37);
-Obj v__3518437_37 = PRIM_CDR(v__3518436_37);
-Obj v__3518438_37 = PRIM_ISCONS(v__3518437_37);
-if (True == v__3518438_37) {
-Obj v__3518439_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518440_37 = PRIM_CDR(v__3518439_37);
-Obj v__3518441_37 = PRIM_CDR(v__3518440_37);
-Obj v__3518442_37 = PRIM_CAR(v__3518441_37);
-Obj v__3517564_37 = v__3518442_37;
-Obj v__3518443_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518444_37 = PRIM_CDR(v__3518443_37);
-Obj v__3518445_37 = PRIM_CDR(v__3518444_37);
-Obj v__3518446_37 = PRIM_CDR(v__3518445_37);
-Obj v__3518447_37 = PRIM_EQ(Nil, v__3518446_37);
-if (True == v__3518447_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517563_37, makeNative(co->gc, 2, clofun49, 1, 3, v__3517562_37, v__3517564_37, closureRef(R[0], 1)));
+Obj v__3517624_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518506_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518506_37) {
+Obj v__3518507_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518508_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518507_37);
+if (True == v__3518508_37) {
+Obj v__3518509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518510_37 = PRIM_ISCONS(v__3518509_37);
+if (True == v__3518510_37) {
+Obj v__3518511_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518512_37 = PRIM_CAR(v__3518511_37);
+Obj v__3517631_37 = v__3518512_37;
+Obj v__3518513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518514_37 = PRIM_CDR(v__3518513_37);
+Obj v__3518515_37 = PRIM_ISCONS(v__3518514_37);
+if (True == v__3518515_37) {
+Obj v__3518516_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518517_37 = PRIM_CDR(v__3518516_37);
+Obj v__3518518_37 = PRIM_CAR(v__3518517_37);
+Obj v__3517632_37 = v__3518518_37;
+Obj v__3518519_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518520_37 = PRIM_CDR(v__3518519_37);
+Obj v__3518521_37 = PRIM_CDR(v__3518520_37);
+Obj v__3518522_37 = PRIM_ISCONS(v__3518521_37);
+if (True == v__3518522_37) {
+Obj v__3518523_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518524_37 = PRIM_CDR(v__3518523_37);
+Obj v__3518525_37 = PRIM_CDR(v__3518524_37);
+Obj v__3518526_37 = PRIM_CAR(v__3518525_37);
+Obj v__3517633_37 = v__3518526_37;
+Obj v__3518527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518528_37 = PRIM_CDR(v__3518527_37);
+Obj v__3518529_37 = PRIM_CDR(v__3518528_37);
+Obj v__3518530_37 = PRIM_CDR(v__3518529_37);
+Obj v__3518531_37 = PRIM_EQ(Nil, v__3518530_37);
+if (True == v__3518531_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517632_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3517631_37, v__3517633_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517555_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517555_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517555_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517555_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517555_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517555_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rb = R[1];
 R[1] = v_rb;
-saveCont(co, clofun49, 1, R);
+saveCont(co, clofun50, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518448_37= co->res;
+Obj v__3518532_37= co->res;
 Obj v_rb = R[1];
-Obj v__3518449_37 = makeCons(co->gc, v__3518448_37, Nil);
-Obj v__3518450_37 = makeCons(co->gc, v_rb, v__3518449_37);
-Obj v__3518451_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518450_37);
-Obj v__3518452_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518451_37);
-coraReturn(co, v__3518452_37);
+Obj v__3518533_37 = makeCons(co->gc, v__3518532_37, Nil);
+Obj v__3518534_37 = makeCons(co->gc, v_rb, v__3518533_37);
+Obj v__3518535_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518534_37);
+Obj v__3518536_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518535_37);
+coraReturn(co, v__3518536_37);
 return;
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517556_37 = makeNative(co->gc, 1, clofun47, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518378_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518378_37) {
-Obj v__3518379_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518380_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518379_37);
-if (True == v__3518380_37) {
-Obj v__3518381_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518382_37 = PRIM_ISCONS(v__3518381_37);
-if (True == v__3518382_37) {
-Obj v__3518383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518384_37 = PRIM_CAR(v__3518383_37);
-Obj v__3518385_37 = PRIM_ISCONS(v__3518384_37);
-if (True == v__3518385_37) {
-Obj v__3518386_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518387_37 = PRIM_CAR(v__3518386_37);
-Obj v__3518388_37 = PRIM_CAR(v__3518387_37);
-Obj v__3518389_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518388_37);
-if (True == v__3518389_37) {
-Obj v__3518390_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518391_37 = PRIM_CAR(v__3518390_37);
-Obj v__3518392_37 = PRIM_CDR(v__3518391_37);
-Obj v__3518393_37 = PRIM_ISCONS(v__3518392_37);
-if (True == v__3518393_37) {
-Obj v__3518394_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518395_37 = PRIM_CAR(v__3518394_37);
-Obj v__3518396_37 = PRIM_CDR(v__3518395_37);
-Obj v__3518397_37 = PRIM_CAR(v__3518396_37);
-Obj v__3517559_37 = v__3518397_37;
-Obj v__3518398_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518399_37 = PRIM_CAR(v__3518398_37);
-Obj v__3518400_37 = PRIM_CDR(v__3518399_37);
-Obj v__3518401_37 = PRIM_CDR(v__3518400_37);
-Obj v__3518402_37 = PRIM_ISCONS(v__3518401_37);
-if (True == v__3518402_37) {
-Obj v__3518403_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518404_37 = PRIM_CAR(v__3518403_37);
-Obj v__3518405_37 = PRIM_CDR(v__3518404_37);
-Obj v__3518406_37 = PRIM_CDR(v__3518405_37);
-Obj v__3518407_37 = PRIM_CAR(v__3518406_37);
-Obj v__3517560_37 = v__3518407_37;
-Obj v__3518408_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518409_37 = PRIM_CAR(v__3518408_37);
-Obj v__3518410_37 = PRIM_CDR(v__3518409_37);
-Obj v__3518411_37 = PRIM_CDR(v__3518410_37);
-Obj v__3518412_37 = PRIM_CDR(v__3518411_37);
-Obj v__3518413_37 = PRIM_EQ(Nil, v__3518412_37);
-if (True == v__3518413_37) {
-Obj v__3518414_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518415_37 = PRIM_CDR(v__3518414_37);
-Obj v__3517561_37 = v__3518415_37;
-R[1] = v__3517559_37;
-R[2] = v__3517561_37;
-saveCont(co, clofun48, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517560_37, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3517625_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518462_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518462_37) {
+Obj v__3518463_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518464_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518463_37);
+if (True == v__3518464_37) {
+Obj v__3518465_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518466_37 = PRIM_ISCONS(v__3518465_37);
+if (True == v__3518466_37) {
+Obj v__3518467_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518468_37 = PRIM_CAR(v__3518467_37);
+Obj v__3518469_37 = PRIM_ISCONS(v__3518468_37);
+if (True == v__3518469_37) {
+Obj v__3518470_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518471_37 = PRIM_CAR(v__3518470_37);
+Obj v__3518472_37 = PRIM_CAR(v__3518471_37);
+Obj v__3518473_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518472_37);
+if (True == v__3518473_37) {
+Obj v__3518474_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518475_37 = PRIM_CAR(v__3518474_37);
+Obj v__3518476_37 = PRIM_CDR(v__3518475_37);
+Obj v__3518477_37 = PRIM_ISCONS(v__3518476_37);
+if (True == v__3518477_37) {
+Obj v__3518478_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518479_37 = PRIM_CAR(v__3518478_37);
+Obj v__3518480_37 = PRIM_CDR(v__3518479_37);
+Obj v__3518481_37 = PRIM_CAR(v__3518480_37);
+Obj v__3517628_37 = v__3518481_37;
+Obj v__3518482_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518483_37 = PRIM_CAR(v__3518482_37);
+Obj v__3518484_37 = PRIM_CDR(v__3518483_37);
+Obj v__3518485_37 = PRIM_CDR(v__3518484_37);
+Obj v__3518486_37 = PRIM_ISCONS(v__3518485_37);
+if (True == v__3518486_37) {
+Obj v__3518487_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518488_37 = PRIM_CAR(v__3518487_37);
+Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
+Obj v__3518490_37 = PRIM_CDR(v__3518489_37);
+Obj v__3518491_37 = PRIM_CAR(v__3518490_37);
+Obj v__3517629_37 = v__3518491_37;
+Obj v__3518492_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518493_37 = PRIM_CAR(v__3518492_37);
+Obj v__3518494_37 = PRIM_CDR(v__3518493_37);
+Obj v__3518495_37 = PRIM_CDR(v__3518494_37);
+Obj v__3518496_37 = PRIM_CDR(v__3518495_37);
+Obj v__3518497_37 = PRIM_EQ(Nil, v__3518496_37);
+if (True == v__3518497_37) {
+Obj v__3518498_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518499_37 = PRIM_CDR(v__3518498_37);
+Obj v__3517630_37 = v__3518499_37;
+R[1] = v__3517628_37;
+R[2] = v__3517630_37;
+saveCont(co, clofun49, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517629_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517556_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518416_37= co->res;
-Obj v__3517559_37 = R[1];
-Obj v__3517561_37 = R[2];
-Obj v__3518417_37 = makeCons(co->gc, v__3518416_37, Nil);
-Obj v__3518418_37 = makeCons(co->gc, v__3517559_37, v__3518417_37);
-Obj v__3518419_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518418_37);
-Obj v__3518420_37 = makeCons(co->gc, v__3518419_37, v__3517561_37);
-Obj v__3518421_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518420_37);
+Obj v__3518500_37= co->res;
+Obj v__3517628_37 = R[1];
+Obj v__3517630_37 = R[2];
+Obj v__3518501_37 = makeCons(co->gc, v__3518500_37, Nil);
+Obj v__3518502_37 = makeCons(co->gc, v__3517628_37, v__3518501_37);
+Obj v__3518503_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518502_37);
+Obj v__3518504_37 = makeCons(co->gc, v__3518503_37, v__3517630_37);
+Obj v__3518505_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518504_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3518421_37);
+coraCall1(co, closureRef(R[0], 1), v__3518505_37);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518374_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518374_37) {
-Obj v__3518375_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517557_37 = v__3518375_37;
-Obj v__3518376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517558_37 = v__3518376_37;
-Obj v__3518377_37 = makeCons(co->gc, v__3517557_37, v__3517558_37);
+Obj v__3518458_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518458_37) {
+Obj v__3518459_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517626_37 = v__3518459_37;
+Obj v__3518460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517627_37 = v__3518460_37;
+Obj v__3518461_37 = makeCons(co->gc, v__3517626_37, v__3517627_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3518377_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3518461_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6302,168 +6303,168 @@ return;
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518370_37 = makeCons(co->gc, v_x, Nil);
-Obj v__3518371_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3518370_37);
-coraReturn(co, v__3518371_37);
+Obj v__3518454_37 = makeCons(co->gc, v_x, Nil);
+Obj v__3518455_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3518454_37);
+coraReturn(co, v__3518455_37);
 return;
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517347_37 = R[1];
-Obj v__3517348_37 = R[2];
-R[1] = v__3517348_37;
-R[2] = v__3517347_37;
-saveCont(co, clofun45, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517348_37);
+Obj v__3517413_37 = R[1];
+Obj v__3517414_37 = R[2];
+R[1] = v__3517414_37;
+R[2] = v__3517413_37;
+saveCont(co, clofun46, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517414_37);
 return;
 }
 case 1:
 {
-Obj v__3518299_37= co->res;
-Obj v__3517348_37 = R[1];
-Obj v__3517539_37 = v__3518299_37;
-Obj v__3518300_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517539_37);
-if (True == v__3518300_37) {
-coraReturn(co, v__3517348_37);
+Obj v__3518383_37= co->res;
+Obj v__3517414_37 = R[1];
+Obj v__3517608_37 = v__3518383_37;
+Obj v__3518384_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517608_37);
+if (True == v__3518384_37) {
+coraReturn(co, v__3517414_37);
 return;
 } else {
-Obj v__3518301_37 = makeCons(co->gc, v__3517539_37, Nil);
-Obj v__3518302_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518301_37);
-coraReturn(co, v__3518302_37);
+Obj v__3518385_37 = makeCons(co->gc, v__3517608_37, Nil);
+Obj v__3518386_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518385_37);
+coraReturn(co, v__3518386_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518366_37= co->res;
-Obj v__3518364_37 = R[1];
-Obj v__3518367_37 = makeCons(co->gc, v__3518364_37, v__3518366_37);
-Obj v__3518368_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518367_37);
-coraReturn(co, v__3518368_37);
+Obj v__3518450_37= co->res;
+Obj v__3518448_37 = R[1];
+Obj v__3518451_37 = makeCons(co->gc, v__3518448_37, v__3518450_37);
+Obj v__3518452_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518451_37);
+coraReturn(co, v__3518452_37);
 return;
 }
 case 3:
 {
-Obj v__3518365_37= co->res;
-Obj v__3517549_37 = R[1];
-Obj v__3518364_37 = R[2];
-R[1] = v__3518364_37;
-saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518365_37, v__3517549_37);
+Obj v__3518449_37= co->res;
+Obj v__3517618_37 = R[1];
+Obj v__3518448_37 = R[2];
+R[1] = v__3518448_37;
+saveCont(co, clofun46, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518449_37, v__3517618_37);
 return;
 }
 case 4:
 {
-Obj v__3518361_37= co->res;
-Obj v__3517547_37 = R[1];
-Obj v__3517347_37 = R[2];
-Obj v__3517549_37 = R[3];
-Obj v__3518362_37 = makeCons(co->gc, v__3518361_37, Nil);
-Obj v__3518363_37 = makeCons(co->gc, v__3517547_37, v__3518362_37);
-Obj v__3518364_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518363_37);
-R[1] = v__3517549_37;
-R[2] = v__3518364_37;
-saveCont(co, clofun45, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3517347_37);
+Obj v__3518445_37= co->res;
+Obj v__3517616_37 = R[1];
+Obj v__3517413_37 = R[2];
+Obj v__3517618_37 = R[3];
+Obj v__3518446_37 = makeCons(co->gc, v__3518445_37, Nil);
+Obj v__3518447_37 = makeCons(co->gc, v__3517616_37, v__3518446_37);
+Obj v__3518448_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518447_37);
+R[1] = v__3517618_37;
+R[2] = v__3518448_37;
+saveCont(co, clofun46, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3517413_37);
 return;
 }
 case 5:
 {
-Obj v__3518360_37= co->res;
-Obj v__3517548_37 = R[1];
-Obj v__3517547_37 = R[2];
-Obj v__3517347_37 = R[3];
-Obj v__3517549_37 = v__3518360_37;
-R[1] = v__3517547_37;
-R[2] = v__3517347_37;
-R[3] = v__3517549_37;
-saveCont(co, clofun45, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517549_37, v__3517548_37);
+Obj v__3518444_37= co->res;
+Obj v__3517617_37 = R[1];
+Obj v__3517616_37 = R[2];
+Obj v__3517413_37 = R[3];
+Obj v__3517618_37 = v__3518444_37;
+R[1] = v__3517616_37;
+R[2] = v__3517413_37;
+R[3] = v__3517618_37;
+saveCont(co, clofun46, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517618_37, v__3517617_37);
 return;
 }
 case 6:
 {
-Obj v__3518297_37= co->res;
-Obj v__3517348_37 = R[1];
-Obj v__3517347_37 = R[2];
-if (True == v__3518297_37) {
-coraReturn(co, v__3517348_37);
+Obj v__3518381_37= co->res;
+Obj v__3517414_37 = R[1];
+Obj v__3517413_37 = R[2];
+if (True == v__3518381_37) {
+coraReturn(co, v__3517414_37);
 return;
 } else {
-Obj v__3518298_37 = primIsSymbol(v__3517348_37);
-if (True == v__3518298_37) {
-R[1] = v__3517348_37;
-saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517348_37, v__3517347_37);
-return;
-} else {
-Obj v__3517540_37 = makeNative(co->gc, 3, clofun44, 0, 2, v__3517348_37, v__3517347_37);
-Obj v__3518340_37 = PRIM_ISCONS(v__3517348_37);
-if (True == v__3518340_37) {
-Obj v__3518341_37 = PRIM_CAR(v__3517348_37);
-Obj v__3518342_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518341_37);
-if (True == v__3518342_37) {
-Obj v__3518343_37 = PRIM_CDR(v__3517348_37);
-Obj v__3518344_37 = PRIM_ISCONS(v__3518343_37);
-if (True == v__3518344_37) {
-Obj v__3518345_37 = PRIM_CDR(v__3517348_37);
-Obj v__3518346_37 = PRIM_CAR(v__3518345_37);
-Obj v__3517547_37 = v__3518346_37;
-Obj v__3518347_37 = PRIM_CDR(v__3517348_37);
-Obj v__3518348_37 = PRIM_CDR(v__3518347_37);
-Obj v__3518349_37 = PRIM_ISCONS(v__3518348_37);
-if (True == v__3518349_37) {
-Obj v__3518350_37 = PRIM_CDR(v__3517348_37);
-Obj v__3518351_37 = PRIM_CDR(v__3518350_37);
-Obj v__3518352_37 = PRIM_CAR(v__3518351_37);
-Obj v__3517548_37 = v__3518352_37;
-Obj v__3518353_37 = PRIM_CDR(v__3517348_37);
-Obj v__3518354_37 = PRIM_CDR(v__3518353_37);
-Obj v__3518355_37 = PRIM_CDR(v__3518354_37);
-Obj v__3518356_37 = PRIM_EQ(Nil, v__3518355_37);
-if (True == v__3518356_37) {
-Obj v__3518357_37 = makeCons(co->gc, v__3517548_37, Nil);
-Obj v__3518358_37 = makeCons(co->gc, v__3517547_37, v__3518357_37);
-Obj v__3518359_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518358_37);
-R[1] = v__3517548_37;
-R[2] = v__3517547_37;
-R[3] = v__3517347_37;
-saveCont(co, clofun45, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518359_37);
+Obj v__3518382_37 = primIsSymbol(v__3517414_37);
+if (True == v__3518382_37) {
+R[1] = v__3517414_37;
+saveCont(co, clofun46, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517414_37, v__3517413_37);
+return;
+} else {
+Obj v__3517609_37 = makeNative(co->gc, 3, clofun45, 0, 2, v__3517414_37, v__3517413_37);
+Obj v__3518424_37 = PRIM_ISCONS(v__3517414_37);
+if (True == v__3518424_37) {
+Obj v__3518425_37 = PRIM_CAR(v__3517414_37);
+Obj v__3518426_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518425_37);
+if (True == v__3518426_37) {
+Obj v__3518427_37 = PRIM_CDR(v__3517414_37);
+Obj v__3518428_37 = PRIM_ISCONS(v__3518427_37);
+if (True == v__3518428_37) {
+Obj v__3518429_37 = PRIM_CDR(v__3517414_37);
+Obj v__3518430_37 = PRIM_CAR(v__3518429_37);
+Obj v__3517616_37 = v__3518430_37;
+Obj v__3518431_37 = PRIM_CDR(v__3517414_37);
+Obj v__3518432_37 = PRIM_CDR(v__3518431_37);
+Obj v__3518433_37 = PRIM_ISCONS(v__3518432_37);
+if (True == v__3518433_37) {
+Obj v__3518434_37 = PRIM_CDR(v__3517414_37);
+Obj v__3518435_37 = PRIM_CDR(v__3518434_37);
+Obj v__3518436_37 = PRIM_CAR(v__3518435_37);
+Obj v__3517617_37 = v__3518436_37;
+Obj v__3518437_37 = PRIM_CDR(v__3517414_37);
+Obj v__3518438_37 = PRIM_CDR(v__3518437_37);
+Obj v__3518439_37 = PRIM_CDR(v__3518438_37);
+Obj v__3518440_37 = PRIM_EQ(Nil, v__3518439_37);
+if (True == v__3518440_37) {
+Obj v__3518441_37 = makeCons(co->gc, v__3517617_37, Nil);
+Obj v__3518442_37 = makeCons(co->gc, v__3517616_37, v__3518441_37);
+Obj v__3518443_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518442_37);
+R[1] = v__3517617_37;
+R[2] = v__3517616_37;
+R[3] = v__3517413_37;
+saveCont(co, clofun46, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518443_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517540_37);
+coraCall0(co, v__3517609_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517540_37);
+coraCall0(co, v__3517609_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517540_37);
+coraCall0(co, v__3517609_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517540_37);
+coraCall0(co, v__3517609_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517540_37);
+coraCall0(co, v__3517609_37);
 return;
 }
 }
@@ -6472,121 +6473,121 @@ return;
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517541_37 = makeNative(co->gc, 3, clofun43, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518308_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518308_37) {
-Obj v__3518309_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518310_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518309_37);
-if (True == v__3518310_37) {
-Obj v__3518311_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518312_37 = PRIM_ISCONS(v__3518311_37);
-if (True == v__3518312_37) {
-Obj v__3518313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518314_37 = PRIM_CAR(v__3518313_37);
-Obj v__3517544_37 = v__3518314_37;
-Obj v__3518315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518316_37 = PRIM_CDR(v__3518315_37);
-Obj v__3518317_37 = PRIM_ISCONS(v__3518316_37);
-if (True == v__3518317_37) {
-Obj v__3518318_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518319_37 = PRIM_CDR(v__3518318_37);
-Obj v__3518320_37 = PRIM_CAR(v__3518319_37);
-Obj v__3517545_37 = v__3518320_37;
-Obj v__3518321_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518322_37 = PRIM_CDR(v__3518321_37);
-Obj v__3518323_37 = PRIM_CDR(v__3518322_37);
-Obj v__3518324_37 = PRIM_ISCONS(v__3518323_37);
-if (True == v__3518324_37) {
-Obj v__3518325_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518326_37 = PRIM_CDR(v__3518325_37);
-Obj v__3518327_37 = PRIM_CDR(v__3518326_37);
-Obj v__3518328_37 = PRIM_CAR(v__3518327_37);
-Obj v__3517546_37 = v__3518328_37;
-Obj v__3518329_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518330_37 = PRIM_CDR(v__3518329_37);
-Obj v__3518331_37 = PRIM_CDR(v__3518330_37);
-Obj v__3518332_37 = PRIM_CDR(v__3518331_37);
-Obj v__3518333_37 = PRIM_EQ(Nil, v__3518332_37);
-if (True == v__3518333_37) {
-R[1] = v__3517546_37;
-R[2] = v__3517544_37;
-saveCont(co, clofun44, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517545_37);
+Obj v__3517610_37 = makeNative(co->gc, 3, clofun44, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518392_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518392_37) {
+Obj v__3518393_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518394_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518393_37);
+if (True == v__3518394_37) {
+Obj v__3518395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518396_37 = PRIM_ISCONS(v__3518395_37);
+if (True == v__3518396_37) {
+Obj v__3518397_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518398_37 = PRIM_CAR(v__3518397_37);
+Obj v__3517613_37 = v__3518398_37;
+Obj v__3518399_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518400_37 = PRIM_CDR(v__3518399_37);
+Obj v__3518401_37 = PRIM_ISCONS(v__3518400_37);
+if (True == v__3518401_37) {
+Obj v__3518402_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518403_37 = PRIM_CDR(v__3518402_37);
+Obj v__3518404_37 = PRIM_CAR(v__3518403_37);
+Obj v__3517614_37 = v__3518404_37;
+Obj v__3518405_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518406_37 = PRIM_CDR(v__3518405_37);
+Obj v__3518407_37 = PRIM_CDR(v__3518406_37);
+Obj v__3518408_37 = PRIM_ISCONS(v__3518407_37);
+if (True == v__3518408_37) {
+Obj v__3518409_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518410_37 = PRIM_CDR(v__3518409_37);
+Obj v__3518411_37 = PRIM_CDR(v__3518410_37);
+Obj v__3518412_37 = PRIM_CAR(v__3518411_37);
+Obj v__3517615_37 = v__3518412_37;
+Obj v__3518413_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518414_37 = PRIM_CDR(v__3518413_37);
+Obj v__3518415_37 = PRIM_CDR(v__3518414_37);
+Obj v__3518416_37 = PRIM_CDR(v__3518415_37);
+Obj v__3518417_37 = PRIM_EQ(Nil, v__3518416_37);
+if (True == v__3518417_37) {
+R[1] = v__3517615_37;
+R[2] = v__3517613_37;
+saveCont(co, clofun45, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517614_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517541_37);
+coraCall0(co, v__3517610_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517541_37);
+coraCall0(co, v__3517610_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517541_37);
+coraCall0(co, v__3517610_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517541_37);
+coraCall0(co, v__3517610_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517541_37);
+coraCall0(co, v__3517610_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517541_37);
+coraCall0(co, v__3517610_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518335_37= co->res;
-Obj v__3518334_37 = R[1];
-Obj v__3517544_37 = R[2];
-Obj v__3518336_37 = makeCons(co->gc, v__3518335_37, Nil);
-Obj v__3518337_37 = makeCons(co->gc, v__3518334_37, v__3518336_37);
-Obj v__3518338_37 = makeCons(co->gc, v__3517544_37, v__3518337_37);
-Obj v__3518339_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518338_37);
-coraReturn(co, v__3518339_37);
+Obj v__3518419_37= co->res;
+Obj v__3518418_37 = R[1];
+Obj v__3517613_37 = R[2];
+Obj v__3518420_37 = makeCons(co->gc, v__3518419_37, Nil);
+Obj v__3518421_37 = makeCons(co->gc, v__3518418_37, v__3518420_37);
+Obj v__3518422_37 = makeCons(co->gc, v__3517613_37, v__3518421_37);
+Obj v__3518423_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518422_37);
+coraReturn(co, v__3518423_37);
 return;
 }
 case 2:
 {
-Obj v__3518334_37= co->res;
-Obj v__3517546_37 = R[1];
-Obj v__3517544_37 = R[2];
-R[1] = v__3518334_37;
-R[2] = v__3517544_37;
-saveCont(co, clofun44, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517546_37);
+Obj v__3518418_37= co->res;
+Obj v__3517615_37 = R[1];
+Obj v__3517613_37 = R[2];
+R[1] = v__3518418_37;
+R[2] = v__3517613_37;
+saveCont(co, clofun45, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517615_37);
 return;
 }
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518303_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518303_37) {
-Obj v__3518304_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517542_37 = v__3518304_37;
-Obj v__3518305_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517543_37 = v__3518305_37;
-R[1] = v__3517542_37;
-R[2] = v__3517543_37;
-saveCont(co, clofun43, 1, R);
+Obj v__3518387_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518387_37) {
+Obj v__3518388_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517611_37 = v__3518388_37;
+Obj v__3518389_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517612_37 = v__3518389_37;
+R[1] = v__3517611_37;
+R[2] = v__3517612_37;
+saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
 } else {
@@ -6597,101 +6598,101 @@ return;
 }
 case 1:
 {
-Obj v__3518306_37= co->res;
-Obj v__3517542_37 = R[1];
-Obj v__3517543_37 = R[2];
-Obj v__3518307_37 = makeCons(co->gc, v__3517542_37, v__3517543_37);
+Obj v__3518390_37= co->res;
+Obj v__3517611_37 = R[1];
+Obj v__3517612_37 = R[2];
+Obj v__3518391_37 = makeCons(co->gc, v__3517611_37, v__3517612_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518306_37, v__3518307_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518390_37, v__3518391_37);
 return;
 }
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517334_37 = R[1];
-R[1] = v__3517334_37;
-saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517334_37);
+Obj v__3517400_37 = R[1];
+R[1] = v__3517400_37;
+saveCont(co, clofun43, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517400_37);
 return;
 }
 case 1:
 {
-Obj v__3518295_37= co->res;
-Obj v__3517537_37 = R[1];
+Obj v__3518379_37= co->res;
+Obj v__3517606_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518295_37, v__3517537_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518379_37, v__3517606_37);
 return;
 }
 case 2:
 {
-Obj v__3518122_37= co->res;
-Obj v__3517334_37 = R[1];
-if (True == v__3518122_37) {
+Obj v__3518206_37= co->res;
+Obj v__3517400_37 = R[1];
+if (True == v__3518206_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518123_37 = primIsSymbol(v__3517334_37);
-if (True == v__3518123_37) {
-Obj v__3518124_37 = makeCons(co->gc, v__3517334_37, Nil);
-coraReturn(co, v__3518124_37);
-return;
-} else {
-Obj v__3517510_37 = makeNative(co->gc, 1, clofun41, 0, 1, v__3517334_37);
-Obj v__3518278_37 = PRIM_ISCONS(v__3517334_37);
-if (True == v__3518278_37) {
-Obj v__3518279_37 = PRIM_CAR(v__3517334_37);
-Obj v__3518280_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518279_37);
-if (True == v__3518280_37) {
-Obj v__3518281_37 = PRIM_CDR(v__3517334_37);
-Obj v__3518282_37 = PRIM_ISCONS(v__3518281_37);
-if (True == v__3518282_37) {
-Obj v__3518283_37 = PRIM_CDR(v__3517334_37);
-Obj v__3518284_37 = PRIM_CAR(v__3518283_37);
-Obj v__3517537_37 = v__3518284_37;
-Obj v__3518285_37 = PRIM_CDR(v__3517334_37);
-Obj v__3518286_37 = PRIM_CDR(v__3518285_37);
-Obj v__3518287_37 = PRIM_ISCONS(v__3518286_37);
-if (True == v__3518287_37) {
-Obj v__3518288_37 = PRIM_CDR(v__3517334_37);
-Obj v__3518289_37 = PRIM_CDR(v__3518288_37);
-Obj v__3518290_37 = PRIM_CAR(v__3518289_37);
-Obj v__3517538_37 = v__3518290_37;
-Obj v__3518291_37 = PRIM_CDR(v__3517334_37);
-Obj v__3518292_37 = PRIM_CDR(v__3518291_37);
-Obj v__3518293_37 = PRIM_CDR(v__3518292_37);
-Obj v__3518294_37 = PRIM_EQ(Nil, v__3518293_37);
-if (True == v__3518294_37) {
-R[1] = v__3517537_37;
-saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517538_37);
+Obj v__3518207_37 = primIsSymbol(v__3517400_37);
+if (True == v__3518207_37) {
+Obj v__3518208_37 = makeCons(co->gc, v__3517400_37, Nil);
+coraReturn(co, v__3518208_37);
+return;
+} else {
+Obj v__3517579_37 = makeNative(co->gc, 1, clofun42, 0, 1, v__3517400_37);
+Obj v__3518362_37 = PRIM_ISCONS(v__3517400_37);
+if (True == v__3518362_37) {
+Obj v__3518363_37 = PRIM_CAR(v__3517400_37);
+Obj v__3518364_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518363_37);
+if (True == v__3518364_37) {
+Obj v__3518365_37 = PRIM_CDR(v__3517400_37);
+Obj v__3518366_37 = PRIM_ISCONS(v__3518365_37);
+if (True == v__3518366_37) {
+Obj v__3518367_37 = PRIM_CDR(v__3517400_37);
+Obj v__3518368_37 = PRIM_CAR(v__3518367_37);
+Obj v__3517606_37 = v__3518368_37;
+Obj v__3518369_37 = PRIM_CDR(v__3517400_37);
+Obj v__3518370_37 = PRIM_CDR(v__3518369_37);
+Obj v__3518371_37 = PRIM_ISCONS(v__3518370_37);
+if (True == v__3518371_37) {
+Obj v__3518372_37 = PRIM_CDR(v__3517400_37);
+Obj v__3518373_37 = PRIM_CDR(v__3518372_37);
+Obj v__3518374_37 = PRIM_CAR(v__3518373_37);
+Obj v__3517607_37 = v__3518374_37;
+Obj v__3518375_37 = PRIM_CDR(v__3517400_37);
+Obj v__3518376_37 = PRIM_CDR(v__3518375_37);
+Obj v__3518377_37 = PRIM_CDR(v__3518376_37);
+Obj v__3518378_37 = PRIM_EQ(Nil, v__3518377_37);
+if (True == v__3518378_37) {
+R[1] = v__3517606_37;
+saveCont(co, clofun43, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517607_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517510_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517510_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517510_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517510_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517510_37);
+coraCall0(co, v__3517579_37);
 return;
 }
 }
@@ -6700,561 +6701,561 @@ return;
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517511_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3518248_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518248_37) {
-Obj v__3518249_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518250_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518249_37);
-if (True == v__3518250_37) {
-Obj v__3518251_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518252_37 = PRIM_ISCONS(v__3518251_37);
-if (True == v__3518252_37) {
-Obj v__3518253_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518254_37 = PRIM_CAR(v__3518253_37);
-Obj v__3517534_37 = v__3518254_37;
-Obj v__3518255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518256_37 = PRIM_CDR(v__3518255_37);
-Obj v__3518257_37 = PRIM_ISCONS(v__3518256_37);
-if (True == v__3518257_37) {
-Obj v__3518258_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518259_37 = PRIM_CDR(v__3518258_37);
-Obj v__3518260_37 = PRIM_CAR(v__3518259_37);
-Obj v__3517535_37 = v__3518260_37;
-Obj v__3518261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518262_37 = PRIM_CDR(v__3518261_37);
-Obj v__3518263_37 = PRIM_CDR(v__3518262_37);
-Obj v__3518264_37 = PRIM_ISCONS(v__3518263_37);
-if (True == v__3518264_37) {
-Obj v__3518265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518266_37 = PRIM_CDR(v__3518265_37);
-Obj v__3518267_37 = PRIM_CDR(v__3518266_37);
-Obj v__3518268_37 = PRIM_CAR(v__3518267_37);
-Obj v__3517536_37 = v__3518268_37;
-Obj v__3518269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518270_37 = PRIM_CDR(v__3518269_37);
-Obj v__3518271_37 = PRIM_CDR(v__3518270_37);
-Obj v__3518272_37 = PRIM_CDR(v__3518271_37);
-Obj v__3518273_37 = PRIM_EQ(Nil, v__3518272_37);
-if (True == v__3518273_37) {
-Obj v__3518274_37 = makeCons(co->gc, v__3517536_37, Nil);
-Obj v__3518275_37 = makeCons(co->gc, v__3517535_37, v__3518274_37);
-Obj v__3518276_37 = makeCons(co->gc, v__3517534_37, v__3518275_37);
-saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518276_37);
+Obj v__3517580_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518332_37) {
+Obj v__3518333_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518334_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518333_37);
+if (True == v__3518334_37) {
+Obj v__3518335_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518336_37 = PRIM_ISCONS(v__3518335_37);
+if (True == v__3518336_37) {
+Obj v__3518337_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518338_37 = PRIM_CAR(v__3518337_37);
+Obj v__3517603_37 = v__3518338_37;
+Obj v__3518339_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518340_37 = PRIM_CDR(v__3518339_37);
+Obj v__3518341_37 = PRIM_ISCONS(v__3518340_37);
+if (True == v__3518341_37) {
+Obj v__3518342_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518343_37 = PRIM_CDR(v__3518342_37);
+Obj v__3518344_37 = PRIM_CAR(v__3518343_37);
+Obj v__3517604_37 = v__3518344_37;
+Obj v__3518345_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518346_37 = PRIM_CDR(v__3518345_37);
+Obj v__3518347_37 = PRIM_CDR(v__3518346_37);
+Obj v__3518348_37 = PRIM_ISCONS(v__3518347_37);
+if (True == v__3518348_37) {
+Obj v__3518349_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518350_37 = PRIM_CDR(v__3518349_37);
+Obj v__3518351_37 = PRIM_CDR(v__3518350_37);
+Obj v__3518352_37 = PRIM_CAR(v__3518351_37);
+Obj v__3517605_37 = v__3518352_37;
+Obj v__3518353_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518354_37 = PRIM_CDR(v__3518353_37);
+Obj v__3518355_37 = PRIM_CDR(v__3518354_37);
+Obj v__3518356_37 = PRIM_CDR(v__3518355_37);
+Obj v__3518357_37 = PRIM_EQ(Nil, v__3518356_37);
+if (True == v__3518357_37) {
+Obj v__3518358_37 = makeCons(co->gc, v__3517605_37, Nil);
+Obj v__3518359_37 = makeCons(co->gc, v__3517604_37, v__3518358_37);
+Obj v__3518360_37 = makeCons(co->gc, v__3517603_37, v__3518359_37);
+saveCont(co, clofun42, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518360_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517580_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517580_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517580_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517580_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517580_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517511_37);
+coraCall0(co, v__3517580_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518277_37= co->res;
+Obj v__3518361_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518277_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518361_37);
 return;
 }
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517512_37 = makeNative(co->gc, 3, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3518228_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518228_37) {
-Obj v__3518229_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518230_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518229_37);
-if (True == v__3518230_37) {
-Obj v__3518231_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518232_37 = PRIM_ISCONS(v__3518231_37);
-if (True == v__3518232_37) {
-Obj v__3518233_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518234_37 = PRIM_CAR(v__3518233_37);
-Obj v__3517532_37 = v__3518234_37;
-Obj v__3518235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518236_37 = PRIM_CDR(v__3518235_37);
-Obj v__3518237_37 = PRIM_ISCONS(v__3518236_37);
-if (True == v__3518237_37) {
-Obj v__3518238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518239_37 = PRIM_CDR(v__3518238_37);
-Obj v__3518240_37 = PRIM_CAR(v__3518239_37);
-Obj v__3517533_37 = v__3518240_37;
-Obj v__3518241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518242_37 = PRIM_CDR(v__3518241_37);
-Obj v__3518243_37 = PRIM_CDR(v__3518242_37);
-Obj v__3518244_37 = PRIM_EQ(Nil, v__3518243_37);
-if (True == v__3518244_37) {
-Obj v__3518245_37 = makeCons(co->gc, v__3517533_37, Nil);
-Obj v__3518246_37 = makeCons(co->gc, v__3517532_37, v__3518245_37);
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518246_37);
+Obj v__3517581_37 = makeNative(co->gc, 3, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3518312_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518312_37) {
+Obj v__3518313_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518314_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518313_37);
+if (True == v__3518314_37) {
+Obj v__3518315_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518316_37 = PRIM_ISCONS(v__3518315_37);
+if (True == v__3518316_37) {
+Obj v__3518317_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518318_37 = PRIM_CAR(v__3518317_37);
+Obj v__3517601_37 = v__3518318_37;
+Obj v__3518319_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518320_37 = PRIM_CDR(v__3518319_37);
+Obj v__3518321_37 = PRIM_ISCONS(v__3518320_37);
+if (True == v__3518321_37) {
+Obj v__3518322_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518323_37 = PRIM_CDR(v__3518322_37);
+Obj v__3518324_37 = PRIM_CAR(v__3518323_37);
+Obj v__3517602_37 = v__3518324_37;
+Obj v__3518325_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518326_37 = PRIM_CDR(v__3518325_37);
+Obj v__3518327_37 = PRIM_CDR(v__3518326_37);
+Obj v__3518328_37 = PRIM_EQ(Nil, v__3518327_37);
+if (True == v__3518328_37) {
+Obj v__3518329_37 = makeCons(co->gc, v__3517602_37, Nil);
+Obj v__3518330_37 = makeCons(co->gc, v__3517601_37, v__3518329_37);
+saveCont(co, clofun41, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518330_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517581_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517581_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517581_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517581_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517581_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518247_37= co->res;
+Obj v__3518331_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518247_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518331_37);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
- switch (label) {
-case 0:
-{
-Obj v__3517513_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3518198_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518198_37) {
-Obj v__3518199_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518200_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518199_37);
-if (True == v__3518200_37) {
-Obj v__3518201_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518202_37 = PRIM_ISCONS(v__3518201_37);
-if (True == v__3518202_37) {
-Obj v__3518203_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518204_37 = PRIM_CAR(v__3518203_37);
-Obj v__3517529_37 = v__3518204_37;
-Obj v__3518205_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518206_37 = PRIM_CDR(v__3518205_37);
-Obj v__3518207_37 = PRIM_ISCONS(v__3518206_37);
-if (True == v__3518207_37) {
-Obj v__3518208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518209_37 = PRIM_CDR(v__3518208_37);
-Obj v__3518210_37 = PRIM_CAR(v__3518209_37);
-Obj v__3517530_37 = v__3518210_37;
-Obj v__3518211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518212_37 = PRIM_CDR(v__3518211_37);
-Obj v__3518213_37 = PRIM_CDR(v__3518212_37);
-Obj v__3518214_37 = PRIM_ISCONS(v__3518213_37);
-if (True == v__3518214_37) {
-Obj v__3518215_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518216_37 = PRIM_CDR(v__3518215_37);
-Obj v__3518217_37 = PRIM_CDR(v__3518216_37);
-Obj v__3518218_37 = PRIM_CAR(v__3518217_37);
-Obj v__3517531_37 = v__3518218_37;
-Obj v__3518219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518220_37 = PRIM_CDR(v__3518219_37);
-Obj v__3518221_37 = PRIM_CDR(v__3518220_37);
-Obj v__3518222_37 = PRIM_CDR(v__3518221_37);
-Obj v__3518223_37 = PRIM_EQ(Nil, v__3518222_37);
-if (True == v__3518223_37) {
-R[1] = v__3517531_37;
-R[2] = v__3517529_37;
-saveCont(co, clofun39, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517530_37);
+static void clofun40(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3517582_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3518282_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518282_37) {
+Obj v__3518283_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518284_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518283_37);
+if (True == v__3518284_37) {
+Obj v__3518285_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518286_37 = PRIM_ISCONS(v__3518285_37);
+if (True == v__3518286_37) {
+Obj v__3518287_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518288_37 = PRIM_CAR(v__3518287_37);
+Obj v__3517598_37 = v__3518288_37;
+Obj v__3518289_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518290_37 = PRIM_CDR(v__3518289_37);
+Obj v__3518291_37 = PRIM_ISCONS(v__3518290_37);
+if (True == v__3518291_37) {
+Obj v__3518292_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518293_37 = PRIM_CDR(v__3518292_37);
+Obj v__3518294_37 = PRIM_CAR(v__3518293_37);
+Obj v__3517599_37 = v__3518294_37;
+Obj v__3518295_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518296_37 = PRIM_CDR(v__3518295_37);
+Obj v__3518297_37 = PRIM_CDR(v__3518296_37);
+Obj v__3518298_37 = PRIM_ISCONS(v__3518297_37);
+if (True == v__3518298_37) {
+Obj v__3518299_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518300_37 = PRIM_CDR(v__3518299_37);
+Obj v__3518301_37 = PRIM_CDR(v__3518300_37);
+Obj v__3518302_37 = PRIM_CAR(v__3518301_37);
+Obj v__3517600_37 = v__3518302_37;
+Obj v__3518303_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518304_37 = PRIM_CDR(v__3518303_37);
+Obj v__3518305_37 = PRIM_CDR(v__3518304_37);
+Obj v__3518306_37 = PRIM_CDR(v__3518305_37);
+Obj v__3518307_37 = PRIM_EQ(Nil, v__3518306_37);
+if (True == v__3518307_37) {
+R[1] = v__3517600_37;
+R[2] = v__3517598_37;
+saveCont(co, clofun40, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517599_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517513_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517513_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517513_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517513_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517513_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517513_37);
+coraCall0(co, v__3517582_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518227_37= co->res;
-Obj v__3518224_37 = R[1];
+Obj v__3518311_37= co->res;
+Obj v__3518308_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518224_37, v__3518227_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518308_37, v__3518311_37);
 return;
 }
 case 2:
 {
-Obj v__3518225_37= co->res;
-Obj v__3517529_37 = R[1];
-Obj v__3518224_37 = R[2];
-Obj v__3518226_37 = makeCons(co->gc, v__3517529_37, Nil);
-R[1] = v__3518224_37;
-saveCont(co, clofun39, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518225_37, v__3518226_37);
+Obj v__3518309_37= co->res;
+Obj v__3517598_37 = R[1];
+Obj v__3518308_37 = R[2];
+Obj v__3518310_37 = makeCons(co->gc, v__3517598_37, Nil);
+R[1] = v__3518308_37;
+saveCont(co, clofun40, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518309_37, v__3518310_37);
 return;
 }
 case 3:
 {
-Obj v__3518224_37= co->res;
-Obj v__3517531_37 = R[1];
-Obj v__3517529_37 = R[2];
-R[1] = v__3517529_37;
-R[2] = v__3518224_37;
-saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517531_37);
+Obj v__3518308_37= co->res;
+Obj v__3517600_37 = R[1];
+Obj v__3517598_37 = R[2];
+R[1] = v__3517598_37;
+R[2] = v__3518308_37;
+saveCont(co, clofun40, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517600_37);
 return;
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517514_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3518188_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518188_37) {
-Obj v__3518189_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518190_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518189_37);
-if (True == v__3518190_37) {
-Obj v__3518191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518192_37 = PRIM_ISCONS(v__3518191_37);
-if (True == v__3518192_37) {
-Obj v__3518193_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518194_37 = PRIM_CAR(v__3518193_37);
-Obj v__3517527_37 = v__3518194_37;
-Obj v__3518195_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518196_37 = PRIM_CDR(v__3518195_37);
-Obj v__3517528_37 = v__3518196_37;
-Obj v__3518197_37 = makeCons(co->gc, v__3517527_37, v__3517528_37);
+Obj v__3517583_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3518272_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518272_37) {
+Obj v__3518273_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518274_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518273_37);
+if (True == v__3518274_37) {
+Obj v__3518275_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518276_37 = PRIM_ISCONS(v__3518275_37);
+if (True == v__3518276_37) {
+Obj v__3518277_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518278_37 = PRIM_CAR(v__3518277_37);
+Obj v__3517596_37 = v__3518278_37;
+Obj v__3518279_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518280_37 = PRIM_CDR(v__3518279_37);
+Obj v__3517597_37 = v__3518280_37;
+Obj v__3518281_37 = makeCons(co->gc, v__3517596_37, v__3517597_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518197_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518281_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517514_37);
+coraCall0(co, v__3517583_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517514_37);
+coraCall0(co, v__3517583_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517514_37);
+coraCall0(co, v__3517583_37);
 return;
 }
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517515_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3518178_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518178_37) {
-Obj v__3518179_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518180_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518179_37);
-if (True == v__3518180_37) {
-Obj v__3518181_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518182_37 = PRIM_ISCONS(v__3518181_37);
-if (True == v__3518182_37) {
-Obj v__3518183_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518184_37 = PRIM_CAR(v__3518183_37);
-Obj v__3517526_37 = v__3518184_37;
-Obj v__3518185_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518186_37 = PRIM_CDR(v__3518185_37);
-Obj v__3518187_37 = PRIM_EQ(Nil, v__3518186_37);
-if (True == v__3518187_37) {
+Obj v__3517584_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3518262_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518262_37) {
+Obj v__3518263_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518264_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518263_37);
+if (True == v__3518264_37) {
+Obj v__3518265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518266_37 = PRIM_ISCONS(v__3518265_37);
+if (True == v__3518266_37) {
+Obj v__3518267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518268_37 = PRIM_CAR(v__3518267_37);
+Obj v__3517595_37 = v__3518268_37;
+Obj v__3518269_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518270_37 = PRIM_CDR(v__3518269_37);
+Obj v__3518271_37 = PRIM_EQ(Nil, v__3518270_37);
+if (True == v__3518271_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517526_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517595_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517515_37);
+coraCall0(co, v__3517584_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517515_37);
+coraCall0(co, v__3517584_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517515_37);
+coraCall0(co, v__3517584_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517515_37);
+coraCall0(co, v__3517584_37);
 return;
 }
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517516_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v__3518158_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518158_37) {
-Obj v__3518159_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518160_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518159_37);
-if (True == v__3518160_37) {
-Obj v__3518161_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518162_37 = PRIM_ISCONS(v__3518161_37);
-if (True == v__3518162_37) {
-Obj v__3518163_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518164_37 = PRIM_CAR(v__3518163_37);
-Obj v__3517524_37 = v__3518164_37;
-Obj v__3518165_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518166_37 = PRIM_CDR(v__3518165_37);
-Obj v__3518167_37 = PRIM_ISCONS(v__3518166_37);
-if (True == v__3518167_37) {
-Obj v__3518168_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518169_37 = PRIM_CDR(v__3518168_37);
-Obj v__3518170_37 = PRIM_CAR(v__3518169_37);
-Obj v__3517525_37 = v__3518170_37;
-Obj v__3518171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518172_37 = PRIM_CDR(v__3518171_37);
-Obj v__3518173_37 = PRIM_CDR(v__3518172_37);
-Obj v__3518174_37 = PRIM_EQ(Nil, v__3518173_37);
-if (True == v__3518174_37) {
-Obj v__3518175_37 = makeCons(co->gc, v__3517525_37, Nil);
-Obj v__3518176_37 = makeCons(co->gc, v__3517524_37, v__3518175_37);
-saveCont(co, clofun36, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518176_37);
+Obj v__3517585_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518242_37) {
+Obj v__3518243_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518244_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518243_37);
+if (True == v__3518244_37) {
+Obj v__3518245_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518246_37 = PRIM_ISCONS(v__3518245_37);
+if (True == v__3518246_37) {
+Obj v__3518247_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518248_37 = PRIM_CAR(v__3518247_37);
+Obj v__3517593_37 = v__3518248_37;
+Obj v__3518249_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518250_37 = PRIM_CDR(v__3518249_37);
+Obj v__3518251_37 = PRIM_ISCONS(v__3518250_37);
+if (True == v__3518251_37) {
+Obj v__3518252_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518253_37 = PRIM_CDR(v__3518252_37);
+Obj v__3518254_37 = PRIM_CAR(v__3518253_37);
+Obj v__3517594_37 = v__3518254_37;
+Obj v__3518255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518256_37 = PRIM_CDR(v__3518255_37);
+Obj v__3518257_37 = PRIM_CDR(v__3518256_37);
+Obj v__3518258_37 = PRIM_EQ(Nil, v__3518257_37);
+if (True == v__3518258_37) {
+Obj v__3518259_37 = makeCons(co->gc, v__3517594_37, Nil);
+Obj v__3518260_37 = makeCons(co->gc, v__3517593_37, v__3518259_37);
+saveCont(co, clofun37, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518260_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517585_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517585_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517585_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517585_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517516_37);
+coraCall0(co, v__3517585_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518177_37= co->res;
+Obj v__3518261_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518177_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518261_37);
 return;
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517517_37 = makeNative(co->gc, 2, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v__3518148_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518148_37) {
-Obj v__3518149_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518150_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518149_37);
-if (True == v__3518150_37) {
-Obj v__3518151_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518152_37 = PRIM_ISCONS(v__3518151_37);
-if (True == v__3518152_37) {
-Obj v__3518153_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518154_37 = PRIM_CAR(v__3518153_37);
-Obj v__3517523_37 = v__3518154_37;
-Obj v__3518155_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518156_37 = PRIM_CDR(v__3518155_37);
-Obj v__3518157_37 = PRIM_EQ(Nil, v__3518156_37);
-if (True == v__3518157_37) {
+Obj v__3517586_37 = makeNative(co->gc, 2, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3518232_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518232_37) {
+Obj v__3518233_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518234_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518233_37);
+if (True == v__3518234_37) {
+Obj v__3518235_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518236_37 = PRIM_ISCONS(v__3518235_37);
+if (True == v__3518236_37) {
+Obj v__3518237_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518238_37 = PRIM_CAR(v__3518237_37);
+Obj v__3517592_37 = v__3518238_37;
+Obj v__3518239_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518240_37 = PRIM_CDR(v__3518239_37);
+Obj v__3518241_37 = PRIM_EQ(Nil, v__3518240_37);
+if (True == v__3518241_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517523_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517592_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517517_37);
+coraCall0(co, v__3517586_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517517_37);
+coraCall0(co, v__3517586_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517517_37);
+coraCall0(co, v__3517586_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517517_37);
+coraCall0(co, v__3517586_37);
 return;
 }
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517518_37 = makeNative(co->gc, 1, clofun33, 0, 1, closureRef(R[0], 0));
-Obj v__3518130_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518130_37) {
-Obj v__3518131_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518132_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518131_37);
-if (True == v__3518132_37) {
-Obj v__3518133_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518134_37 = PRIM_ISCONS(v__3518133_37);
-if (True == v__3518134_37) {
-Obj v__3518135_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518136_37 = PRIM_CAR(v__3518135_37);
-Obj v__3517521_37 = v__3518136_37;
-Obj v__3518137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518138_37 = PRIM_CDR(v__3518137_37);
-Obj v__3518139_37 = PRIM_ISCONS(v__3518138_37);
-if (True == v__3518139_37) {
-Obj v__3518140_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518141_37 = PRIM_CDR(v__3518140_37);
-Obj v__3518142_37 = PRIM_CAR(v__3518141_37);
-Obj v__3517522_37 = v__3518142_37;
-Obj v__3518143_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518144_37 = PRIM_CDR(v__3518143_37);
-Obj v__3518145_37 = PRIM_CDR(v__3518144_37);
-Obj v__3518146_37 = PRIM_EQ(Nil, v__3518145_37);
-if (True == v__3518146_37) {
-R[1] = v__3517521_37;
-saveCont(co, clofun34, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517522_37);
+Obj v__3517587_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v__3518214_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518214_37) {
+Obj v__3518215_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518216_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518215_37);
+if (True == v__3518216_37) {
+Obj v__3518217_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518218_37 = PRIM_ISCONS(v__3518217_37);
+if (True == v__3518218_37) {
+Obj v__3518219_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518220_37 = PRIM_CAR(v__3518219_37);
+Obj v__3517590_37 = v__3518220_37;
+Obj v__3518221_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518222_37 = PRIM_CDR(v__3518221_37);
+Obj v__3518223_37 = PRIM_ISCONS(v__3518222_37);
+if (True == v__3518223_37) {
+Obj v__3518224_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518225_37 = PRIM_CDR(v__3518224_37);
+Obj v__3518226_37 = PRIM_CAR(v__3518225_37);
+Obj v__3517591_37 = v__3518226_37;
+Obj v__3518227_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518228_37 = PRIM_CDR(v__3518227_37);
+Obj v__3518229_37 = PRIM_CDR(v__3518228_37);
+Obj v__3518230_37 = PRIM_EQ(Nil, v__3518229_37);
+if (True == v__3518230_37) {
+R[1] = v__3517590_37;
+saveCont(co, clofun35, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517591_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517587_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517587_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518147_37= co->res;
-Obj v__3517521_37 = R[1];
+Obj v__3518231_37= co->res;
+Obj v__3517590_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518147_37, v__3517521_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518231_37, v__3517590_37);
 return;
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518125_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518125_37) {
-Obj v__3518126_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517519_37 = v__3518126_37;
-Obj v__3518127_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517520_37 = v__3518127_37;
-Obj v__3518128_37 = makeCons(co->gc, v__3517519_37, v__3517520_37);
-saveCont(co, clofun33, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518128_37);
+Obj v__3518209_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518209_37) {
+Obj v__3518210_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517588_37 = v__3518210_37;
+Obj v__3518211_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517589_37 = v__3518211_37;
+Obj v__3518212_37 = makeCons(co->gc, v__3517588_37, v__3517589_37);
+saveCont(co, clofun34, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518212_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7264,295 +7265,295 @@ return;
 }
 case 1:
 {
-Obj v__3518129_37= co->res;
+Obj v__3518213_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518129_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518213_37);
 return;
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517326_37 = R[1];
-Obj v__3517503_37 = makeNative(co->gc, 1, clofun31, 0, 1, v__3517326_37);
-Obj v__3518111_37 = PRIM_ISCONS(v__3517326_37);
-if (True == v__3518111_37) {
-Obj v__3518112_37 = PRIM_CAR(v__3517326_37);
-Obj v__3518113_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518112_37);
-if (True == v__3518113_37) {
-Obj v__3518114_37 = PRIM_CDR(v__3517326_37);
-Obj v__3518115_37 = PRIM_ISCONS(v__3518114_37);
-if (True == v__3518115_37) {
-Obj v__3518116_37 = PRIM_CDR(v__3517326_37);
-Obj v__3518117_37 = PRIM_CAR(v__3518116_37);
-Obj v__3518118_37 = PRIM_CDR(v__3517326_37);
-Obj v__3518119_37 = PRIM_CDR(v__3518118_37);
-Obj v__3518120_37 = PRIM_EQ(Nil, v__3518119_37);
-if (True == v__3518120_37) {
+Obj v__3517392_37 = R[1];
+Obj v__3517572_37 = makeNative(co->gc, 1, clofun32, 0, 1, v__3517392_37);
+Obj v__3518195_37 = PRIM_ISCONS(v__3517392_37);
+if (True == v__3518195_37) {
+Obj v__3518196_37 = PRIM_CAR(v__3517392_37);
+Obj v__3518197_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518196_37);
+if (True == v__3518197_37) {
+Obj v__3518198_37 = PRIM_CDR(v__3517392_37);
+Obj v__3518199_37 = PRIM_ISCONS(v__3518198_37);
+if (True == v__3518199_37) {
+Obj v__3518200_37 = PRIM_CDR(v__3517392_37);
+Obj v__3518201_37 = PRIM_CAR(v__3518200_37);
+Obj v__3518202_37 = PRIM_CDR(v__3517392_37);
+Obj v__3518203_37 = PRIM_CDR(v__3518202_37);
+Obj v__3518204_37 = PRIM_EQ(Nil, v__3518203_37);
+if (True == v__3518204_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517503_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517503_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517503_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517503_37);
+coraCall0(co, v__3517572_37);
 return;
 }
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517504_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3518101_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518101_37) {
-Obj v__3518102_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518103_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3518102_37);
-if (True == v__3518103_37) {
-Obj v__3518104_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518105_37 = PRIM_ISCONS(v__3518104_37);
-if (True == v__3518105_37) {
-Obj v__3518106_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518107_37 = PRIM_CAR(v__3518106_37);
-Obj v__3518108_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518109_37 = PRIM_CDR(v__3518108_37);
-Obj v__3518110_37 = PRIM_EQ(Nil, v__3518109_37);
-if (True == v__3518110_37) {
+Obj v__3517573_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3518185_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518185_37) {
+Obj v__3518186_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518187_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3518186_37);
+if (True == v__3518187_37) {
+Obj v__3518188_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518189_37 = PRIM_ISCONS(v__3518188_37);
+if (True == v__3518189_37) {
+Obj v__3518190_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518191_37 = PRIM_CAR(v__3518190_37);
+Obj v__3518192_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518193_37 = PRIM_CDR(v__3518192_37);
+Obj v__3518194_37 = PRIM_EQ(Nil, v__3518193_37);
+if (True == v__3518194_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517504_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517504_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517504_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517504_37);
+coraCall0(co, v__3517573_37);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517505_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v__3518091_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518091_37) {
-Obj v__3518092_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518093_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518092_37);
-if (True == v__3518093_37) {
-Obj v__3518094_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518095_37 = PRIM_ISCONS(v__3518094_37);
-if (True == v__3518095_37) {
-Obj v__3518096_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518097_37 = PRIM_CAR(v__3518096_37);
-Obj v__3518098_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518099_37 = PRIM_CDR(v__3518098_37);
-Obj v__3518100_37 = PRIM_EQ(Nil, v__3518099_37);
-if (True == v__3518100_37) {
+Obj v__3517574_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3518175_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518175_37) {
+Obj v__3518176_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518177_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518176_37);
+if (True == v__3518177_37) {
+Obj v__3518178_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518179_37 = PRIM_ISCONS(v__3518178_37);
+if (True == v__3518179_37) {
+Obj v__3518180_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518181_37 = PRIM_CAR(v__3518180_37);
+Obj v__3518182_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518183_37 = PRIM_CDR(v__3518182_37);
+Obj v__3518184_37 = PRIM_EQ(Nil, v__3518183_37);
+if (True == v__3518184_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517505_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517505_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517505_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517505_37);
+coraCall0(co, v__3517574_37);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517506_37 = makeNative(co->gc, 1, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v__3518081_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518081_37) {
-Obj v__3518082_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518083_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518082_37);
-if (True == v__3518083_37) {
-Obj v__3518084_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518085_37 = PRIM_ISCONS(v__3518084_37);
-if (True == v__3518085_37) {
-Obj v__3518086_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518087_37 = PRIM_CAR(v__3518086_37);
-Obj v__3518088_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518089_37 = PRIM_CDR(v__3518088_37);
-Obj v__3518090_37 = PRIM_EQ(Nil, v__3518089_37);
-if (True == v__3518090_37) {
+Obj v__3517575_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3518165_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518165_37) {
+Obj v__3518166_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518167_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518166_37);
+if (True == v__3518167_37) {
+Obj v__3518168_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518169_37 = PRIM_ISCONS(v__3518168_37);
+if (True == v__3518169_37) {
+Obj v__3518170_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518171_37 = PRIM_CAR(v__3518170_37);
+Obj v__3518172_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518173_37 = PRIM_CDR(v__3518172_37);
+Obj v__3518174_37 = PRIM_EQ(Nil, v__3518173_37);
+if (True == v__3518174_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517506_37);
+coraCall0(co, v__3517575_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517506_37);
+coraCall0(co, v__3517575_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517506_37);
+coraCall0(co, v__3517575_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517506_37);
+coraCall0(co, v__3517575_37);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517507_37 = makeNative(co->gc, 2, clofun27, 0, 1, closureRef(R[0], 0));
-Obj v__3518071_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518071_37) {
-Obj v__3518072_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518073_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518072_37);
-if (True == v__3518073_37) {
-Obj v__3518074_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518075_37 = PRIM_ISCONS(v__3518074_37);
-if (True == v__3518075_37) {
-Obj v__3518076_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518077_37 = PRIM_CAR(v__3518076_37);
-Obj v__3518078_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
-Obj v__3518080_37 = PRIM_EQ(Nil, v__3518079_37);
-if (True == v__3518080_37) {
+Obj v__3517576_37 = makeNative(co->gc, 2, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v__3518155_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518155_37) {
+Obj v__3518156_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518157_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518156_37);
+if (True == v__3518157_37) {
+Obj v__3518158_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518159_37 = PRIM_ISCONS(v__3518158_37);
+if (True == v__3518159_37) {
+Obj v__3518160_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518161_37 = PRIM_CAR(v__3518160_37);
+Obj v__3518162_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518163_37 = PRIM_CDR(v__3518162_37);
+Obj v__3518164_37 = PRIM_EQ(Nil, v__3518163_37);
+if (True == v__3518164_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517507_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517507_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517507_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517507_37);
+coraCall0(co, v__3517576_37);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517508_37 = makeNative(co->gc, 1, clofun26, 0, 0);
-Obj v__3518061_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518061_37) {
-Obj v__3518062_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518063_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518062_37);
-if (True == v__3518063_37) {
-Obj v__3518064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518065_37 = PRIM_ISCONS(v__3518064_37);
-if (True == v__3518065_37) {
-Obj v__3518066_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518067_37 = PRIM_CAR(v__3518066_37);
-Obj v__3517509_37 = v__3518067_37;
-Obj v__3518068_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518069_37 = PRIM_CDR(v__3518068_37);
-R[1] = v__3517508_37;
-saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517509_37);
+Obj v__3517577_37 = makeNative(co->gc, 1, clofun27, 0, 0);
+Obj v__3518145_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518145_37) {
+Obj v__3518146_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518147_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518146_37);
+if (True == v__3518147_37) {
+Obj v__3518148_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518149_37 = PRIM_ISCONS(v__3518148_37);
+if (True == v__3518149_37) {
+Obj v__3518150_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518151_37 = PRIM_CAR(v__3518150_37);
+Obj v__3517578_37 = v__3518151_37;
+Obj v__3518152_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518153_37 = PRIM_CDR(v__3518152_37);
+R[1] = v__3517577_37;
+saveCont(co, clofun28, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517578_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517508_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517508_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517508_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518070_37= co->res;
-Obj v__3517508_37 = R[1];
-if (True == v__3518070_37) {
+Obj v__3518154_37= co->res;
+Obj v__3517577_37 = R[1];
+if (True == v__3518154_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517508_37);
+coraCall0(co, v__3517577_37);
 return;
 }
 }
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7562,69 +7563,69 @@ return;
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517321_37 = R[1];
-Obj v__3517322_37 = R[2];
-Obj v__3518050_37 = PRIM_EQ(Nil, v__3517321_37);
-if (True == v__3518050_37) {
+Obj v__3517387_37 = R[1];
+Obj v__3517388_37 = R[2];
+Obj v__3518134_37 = PRIM_EQ(Nil, v__3517387_37);
+if (True == v__3518134_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517498_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3517321_37, v__3517322_37);
-Obj v__3518056_37 = PRIM_ISCONS(v__3517321_37);
-if (True == v__3518056_37) {
-Obj v__3518057_37 = PRIM_CAR(v__3517321_37);
-Obj v__3517501_37 = v__3518057_37;
-Obj v__3518058_37 = PRIM_CDR(v__3517321_37);
-Obj v__3517502_37 = v__3518058_37;
-R[1] = v__3517502_37;
-R[2] = v__3517322_37;
-R[3] = v__3517498_37;
-saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517501_37, v__3517322_37);
+Obj v__3517567_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3517387_37, v__3517388_37);
+Obj v__3518140_37 = PRIM_ISCONS(v__3517387_37);
+if (True == v__3518140_37) {
+Obj v__3518141_37 = PRIM_CAR(v__3517387_37);
+Obj v__3517570_37 = v__3518141_37;
+Obj v__3518142_37 = PRIM_CDR(v__3517387_37);
+Obj v__3517571_37 = v__3518142_37;
+R[1] = v__3517571_37;
+R[2] = v__3517388_37;
+R[3] = v__3517567_37;
+saveCont(co, clofun26, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517570_37, v__3517388_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517498_37);
+coraCall0(co, v__3517567_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518059_37= co->res;
-Obj v__3517502_37 = R[1];
-Obj v__3517322_37 = R[2];
-Obj v__3517498_37 = R[3];
-if (True == v__3518059_37) {
+Obj v__3518143_37= co->res;
+Obj v__3517571_37 = R[1];
+Obj v__3517388_37 = R[2];
+Obj v__3517567_37 = R[3];
+if (True == v__3518143_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517502_37, v__3517322_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517571_37, v__3517388_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517498_37);
+coraCall0(co, v__3517567_37);
 return;
 }
 }
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518051_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518051_37) {
-Obj v__3518052_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517499_37 = v__3518052_37;
-Obj v__3518053_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517500_37 = v__3518053_37;
-R[1] = v__3517499_37;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517500_37, closureRef(R[0], 1));
+Obj v__3518135_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518135_37) {
+Obj v__3518136_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517568_37 = v__3518136_37;
+Obj v__3518137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517569_37 = v__3518137_37;
+R[1] = v__3517568_37;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517569_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7634,78 +7635,78 @@ return;
 }
 case 1:
 {
-Obj v__3518054_37= co->res;
-Obj v__3517499_37 = R[1];
-Obj v__3518055_37 = makeCons(co->gc, v__3517499_37, v__3518054_37);
-coraReturn(co, v__3518055_37);
+Obj v__3518138_37= co->res;
+Obj v__3517568_37 = R[1];
+Obj v__3518139_37 = makeCons(co->gc, v__3517568_37, v__3518138_37);
+coraReturn(co, v__3518139_37);
 return;
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517316_37 = R[1];
-Obj v__3517317_37 = R[2];
-Obj v__3518039_37 = PRIM_EQ(Nil, v__3517316_37);
-if (True == v__3518039_37) {
-coraReturn(co, v__3517317_37);
-return;
-} else {
-Obj v__3517493_37 = makeNative(co->gc, 2, clofun22, 0, 2, v__3517316_37, v__3517317_37);
-Obj v__3518045_37 = PRIM_ISCONS(v__3517316_37);
-if (True == v__3518045_37) {
-Obj v__3518046_37 = PRIM_CAR(v__3517316_37);
-Obj v__3517496_37 = v__3518046_37;
-Obj v__3518047_37 = PRIM_CDR(v__3517316_37);
-Obj v__3517497_37 = v__3518047_37;
-R[1] = v__3517497_37;
-R[2] = v__3517317_37;
-R[3] = v__3517493_37;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517496_37, v__3517317_37);
+Obj v__3517382_37 = R[1];
+Obj v__3517383_37 = R[2];
+Obj v__3518123_37 = PRIM_EQ(Nil, v__3517382_37);
+if (True == v__3518123_37) {
+coraReturn(co, v__3517383_37);
+return;
+} else {
+Obj v__3517562_37 = makeNative(co->gc, 2, clofun23, 0, 2, v__3517382_37, v__3517383_37);
+Obj v__3518129_37 = PRIM_ISCONS(v__3517382_37);
+if (True == v__3518129_37) {
+Obj v__3518130_37 = PRIM_CAR(v__3517382_37);
+Obj v__3517565_37 = v__3518130_37;
+Obj v__3518131_37 = PRIM_CDR(v__3517382_37);
+Obj v__3517566_37 = v__3518131_37;
+R[1] = v__3517566_37;
+R[2] = v__3517383_37;
+R[3] = v__3517562_37;
+saveCont(co, clofun24, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517565_37, v__3517383_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517493_37);
+coraCall0(co, v__3517562_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518048_37= co->res;
-Obj v__3517497_37 = R[1];
-Obj v__3517317_37 = R[2];
-Obj v__3517493_37 = R[3];
-if (True == v__3518048_37) {
+Obj v__3518132_37= co->res;
+Obj v__3517566_37 = R[1];
+Obj v__3517383_37 = R[2];
+Obj v__3517562_37 = R[3];
+if (True == v__3518132_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517497_37, v__3517317_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517566_37, v__3517383_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517493_37);
+coraCall0(co, v__3517562_37);
 return;
 }
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518040_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518040_37) {
-Obj v__3518041_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517494_37 = v__3518041_37;
-Obj v__3518042_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517495_37 = v__3518042_37;
-R[1] = v__3517494_37;
-saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517495_37, closureRef(R[0], 1));
+Obj v__3518124_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518124_37) {
+Obj v__3518125_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517563_37 = v__3518125_37;
+Obj v__3518126_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517564_37 = v__3518126_37;
+R[1] = v__3517563_37;
+saveCont(co, clofun23, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517564_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7715,79 +7716,79 @@ return;
 }
 case 1:
 {
-Obj v__3518043_37= co->res;
-Obj v__3517494_37 = R[1];
-Obj v__3518044_37 = makeCons(co->gc, v__3517494_37, v__3518043_37);
-coraReturn(co, v__3518044_37);
+Obj v__3518127_37= co->res;
+Obj v__3517563_37 = R[1];
+Obj v__3518128_37 = makeCons(co->gc, v__3517563_37, v__3518127_37);
+coraReturn(co, v__3518128_37);
 return;
 }
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517302_37 = R[1];
-Obj v__3517303_37 = R[2];
-Obj v__3517304_37 = R[3];
-Obj v__3517461_37 = makeNative(co->gc, 2, clofun20, 1, 3, v__3517302_37, v__3517304_37, v__3517303_37);
-R[1] = v__3517304_37;
-R[2] = v__3517461_37;
-saveCont(co, clofun21, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517304_37);
+Obj v__3517368_37 = R[1];
+Obj v__3517369_37 = R[2];
+Obj v__3517370_37 = R[3];
+Obj v__3517527_37 = makeNative(co->gc, 2, clofun21, 1, 3, v__3517370_37, v__3517368_37, v__3517369_37);
+R[1] = v__3517370_37;
+R[2] = v__3517527_37;
+saveCont(co, clofun22, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517370_37);
 return;
 }
 case 1:
 {
-Obj v__3518037_37= co->res;
-Obj v__3517461_37 = R[1];
-if (True == v__3518037_37) {
+Obj v__3518121_37= co->res;
+Obj v__3517527_37 = R[1];
+if (True == v__3518121_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517461_37, True);
+coraCall1(co, v__3517527_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517461_37, False);
+coraCall1(co, v__3517527_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518036_37= co->res;
-Obj v__3517304_37 = R[1];
-Obj v__3517461_37 = R[2];
-if (True == v__3518036_37) {
+Obj v__3518120_37= co->res;
+Obj v__3517370_37 = R[1];
+Obj v__3517527_37 = R[2];
+if (True == v__3518120_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517461_37, True);
+coraCall1(co, v__3517527_37, True);
 return;
 } else {
-R[1] = v__3517461_37;
-saveCont(co, clofun21, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517304_37);
+R[1] = v__3517527_37;
+saveCont(co, clofun22, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517370_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3518034_37= co->res;
-Obj v__3517304_37 = R[1];
-Obj v__3517461_37 = R[2];
-if (True == v__3518034_37) {
+Obj v__3518118_37= co->res;
+Obj v__3517370_37 = R[1];
+Obj v__3517527_37 = R[2];
+if (True == v__3518118_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517461_37, True);
+coraCall1(co, v__3517527_37, True);
 return;
 } else {
-Obj v__3518035_37 = primIsString(v__3517304_37);
-if (True == v__3518035_37) {
+Obj v__3518119_37 = primIsString(v__3517370_37);
+if (True == v__3518119_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517461_37, True);
+coraCall1(co, v__3517527_37, True);
 return;
 } else {
-R[1] = v__3517304_37;
-R[2] = v__3517461_37;
-saveCont(co, clofun21, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3517304_37);
+R[1] = v__3517370_37;
+R[2] = v__3517527_37;
+saveCont(co, clofun22, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3517370_37);
 return;
 }
 }
@@ -7795,602 +7796,691 @@ return;
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517460_37 = R[1];
-if (True == v__3517460_37) {
-Obj v__3517839_37 = makeCons(co->gc, closureRef(R[0], 1), Nil);
-Obj v__3517840_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517839_37);
-coraReturn(co, v__3517840_37);
+Obj v__3517526_37 = R[1];
+if (True == v__3517526_37) {
+Obj v__3517908_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3517909_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517908_37);
+coraReturn(co, v__3517909_37);
+return;
+} else {
+Obj v__3517528_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518092_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518092_37) {
+Obj v__3518093_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518094_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518093_37);
+if (True == v__3518094_37) {
+Obj v__3518095_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518096_37 = PRIM_ISCONS(v__3518095_37);
+if (True == v__3518096_37) {
+Obj v__3518097_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518098_37 = PRIM_CAR(v__3518097_37);
+Obj v__3517561_37 = v__3518098_37;
+Obj v__3518099_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518100_37 = PRIM_CDR(v__3518099_37);
+Obj v__3518101_37 = PRIM_EQ(Nil, v__3518100_37);
+if (True == v__3518101_37) {
+Obj v__3518102_37 = primIsSymbol(v__3517561_37);
+if (True == v__3518102_37) {
+R[1] = v__3517561_37;
+saveCont(co, clofun21, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517561_37, closureRef(R[0], 2));
 return;
 } else {
-Obj v__3517462_37 = makeNative(co->gc, 3, clofun19, 0, 3, closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 2));
-Obj v__3518021_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518021_37) {
-Obj v__3518022_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518023_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518022_37);
-if (True == v__3518023_37) {
-Obj v__3518024_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518025_37 = PRIM_ISCONS(v__3518024_37);
-if (True == v__3518025_37) {
-Obj v__3518026_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518027_37 = PRIM_CAR(v__3518026_37);
-Obj v__3517492_37 = v__3518027_37;
-Obj v__3518028_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518029_37 = PRIM_CDR(v__3518028_37);
-Obj v__3518030_37 = PRIM_EQ(Nil, v__3518029_37);
-if (True == v__3518030_37) {
-R[1] = v__3517492_37;
-saveCont(co, clofun20, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517492_37, closureRef(R[0], 2));
+Obj v__3518106_37 = PRIM_ISCONS(v__3517561_37);
+if (True == v__3518106_37) {
+Obj v__3518107_37 = PRIM_CAR(v__3517561_37);
+Obj v__3518108_37 = makeCons(co->gc, v__3518107_37, Nil);
+Obj v__3518109_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518108_37);
+Obj v__3518110_37 = PRIM_CDR(v__3517561_37);
+Obj v__3518111_37 = makeCons(co->gc, v__3518110_37, Nil);
+Obj v__3518112_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518111_37);
+Obj v__3518113_37 = makeCons(co->gc, v__3518112_37, Nil);
+Obj v__3518114_37 = makeCons(co->gc, v__3518109_37, v__3518113_37);
+Obj v__3518115_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3518114_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518115_37);
+return;
+} else {
+Obj v__3518116_37 = makeCons(co->gc, v__3517561_37, Nil);
+Obj v__3518117_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518116_37);
+coraReturn(co, v__3518117_37);
 return;
+}
+}
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517462_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517462_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517462_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517462_37);
+coraCall0(co, v__3517528_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518031_37= co->res;
-Obj v__3517492_37 = R[1];
-Obj v__3518032_37 = makeCons(co->gc, v__3517492_37, Nil);
-Obj v__3518033_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518032_37);
-coraReturn(co, v__3518033_37);
+Obj v__3518103_37= co->res;
+Obj v__3517561_37 = R[1];
+Obj v__3518104_37 = makeCons(co->gc, v__3517561_37, Nil);
+Obj v__3518105_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518104_37);
+coraReturn(co, v__3518105_37);
 return;
 }
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517841_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3517841_37) {
-saveCont(co, clofun19, 2, R);
+Obj v__3517910_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3517910_37) {
+saveCont(co, clofun20, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517464_37 = makeNative(co->gc, 1, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517997_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517997_37) {
-Obj v__3517998_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517999_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517998_37);
-if (True == v__3517999_37) {
-Obj v__3518000_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518001_37 = PRIM_ISCONS(v__3518000_37);
-if (True == v__3518001_37) {
-Obj v__3518002_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518003_37 = PRIM_CAR(v__3518002_37);
-Obj v__3517490_37 = v__3518003_37;
-Obj v__3518004_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518005_37 = PRIM_CDR(v__3518004_37);
-Obj v__3518006_37 = PRIM_ISCONS(v__3518005_37);
-if (True == v__3518006_37) {
-Obj v__3518007_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518008_37 = PRIM_CDR(v__3518007_37);
-Obj v__3518009_37 = PRIM_CAR(v__3518008_37);
-Obj v__3517491_37 = v__3518009_37;
-Obj v__3518010_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518011_37 = PRIM_CDR(v__3518010_37);
-Obj v__3518012_37 = PRIM_CDR(v__3518011_37);
-Obj v__3518013_37 = PRIM_EQ(Nil, v__3518012_37);
-if (True == v__3518013_37) {
-R[1] = v__3517491_37;
-R[2] = v__3517490_37;
-saveCont(co, clofun19, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun18, 1, 0), v__3517490_37);
+Obj v__3517530_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518068_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518068_37) {
+Obj v__3518069_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518070_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518069_37);
+if (True == v__3518070_37) {
+Obj v__3518071_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518072_37 = PRIM_ISCONS(v__3518071_37);
+if (True == v__3518072_37) {
+Obj v__3518073_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518074_37 = PRIM_CAR(v__3518073_37);
+Obj v__3517559_37 = v__3518074_37;
+Obj v__3518075_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518076_37 = PRIM_CDR(v__3518075_37);
+Obj v__3518077_37 = PRIM_ISCONS(v__3518076_37);
+if (True == v__3518077_37) {
+Obj v__3518078_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
+Obj v__3518080_37 = PRIM_CAR(v__3518079_37);
+Obj v__3517560_37 = v__3518080_37;
+Obj v__3518081_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518082_37 = PRIM_CDR(v__3518081_37);
+Obj v__3518083_37 = PRIM_CDR(v__3518082_37);
+Obj v__3518084_37 = PRIM_EQ(Nil, v__3518083_37);
+if (True == v__3518084_37) {
+R[1] = v__3517560_37;
+R[2] = v__3517559_37;
+saveCont(co, clofun20, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), v__3517559_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517464_37);
+coraCall0(co, v__3517530_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3517845_37= co->res;
-Obj v__3517846_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3517847_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3517846_37);
-coraReturn(co, v__3517847_37);
+Obj v__3517914_37= co->res;
+Obj v__3517915_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3517916_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3517915_37);
+coraReturn(co, v__3517916_37);
 return;
 }
 case 2:
 {
-Obj v__3517842_37= co->res;
-Obj v__3517463_37 = v__3517842_37;
-Obj v__3517843_37 = PRIM_ISCONS(v__3517463_37);
-if (True == v__3517843_37) {
-Obj v__3517844_37 = PRIM_CDR(v__3517463_37);
-coraReturn(co, v__3517844_37);
+Obj v__3517911_37= co->res;
+Obj v__3517529_37 = v__3517911_37;
+Obj v__3517912_37 = PRIM_ISCONS(v__3517529_37);
+if (True == v__3517912_37) {
+Obj v__3517913_37 = PRIM_CDR(v__3517529_37);
+coraReturn(co, v__3517913_37);
 return;
 } else {
-saveCont(co, clofun19, 1, R);
+saveCont(co, clofun20, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 }
 case 3:
 {
-Obj v__3518017_37= co->res;
-Obj v__3517490_37 = R[1];
-Obj v__3518018_37 = makeCons(co->gc, v__3518017_37, Nil);
-Obj v__3518019_37 = makeCons(co->gc, v__3517490_37, v__3518018_37);
-Obj v__3518020_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518019_37);
-coraReturn(co, v__3518020_37);
+Obj v__3518088_37= co->res;
+Obj v__3517559_37 = R[1];
+Obj v__3518089_37 = makeCons(co->gc, v__3518088_37, Nil);
+Obj v__3518090_37 = makeCons(co->gc, v__3517559_37, v__3518089_37);
+Obj v__3518091_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518090_37);
+coraReturn(co, v__3518091_37);
 return;
 }
 case 4:
 {
-Obj v__3518016_37= co->res;
-Obj v__3517491_37 = R[1];
-Obj v__3517490_37 = R[2];
-R[1] = v__3517490_37;
-saveCont(co, clofun19, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518016_37, closureRef(R[0], 2), v__3517491_37);
+Obj v__3518087_37= co->res;
+Obj v__3517560_37 = R[1];
+Obj v__3517559_37 = R[2];
+R[1] = v__3517559_37;
+saveCont(co, clofun20, 3, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518087_37, closureRef(R[0], 2), v__3517560_37);
 return;
 }
 case 5:
 {
-Obj v__3518015_37= co->res;
-Obj v__3517491_37 = R[1];
-Obj v__3517490_37 = R[2];
-R[1] = v__3517491_37;
-R[2] = v__3517490_37;
-saveCont(co, clofun19, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518015_37, closureRef(R[0], 1));
+Obj v__3518086_37= co->res;
+Obj v__3517560_37 = R[1];
+Obj v__3517559_37 = R[2];
+R[1] = v__3517560_37;
+R[2] = v__3517559_37;
+saveCont(co, clofun20, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518086_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518014_37 = makeCons(co->gc, v_x, v_x);
-coraReturn(co, v__3518014_37);
+Obj v__3518085_37 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, v__3518085_37);
 return;
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517465_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517965_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517965_37) {
-Obj v__3517966_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517967_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517966_37);
-if (True == v__3517967_37) {
-Obj v__3517968_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517969_37 = PRIM_ISCONS(v__3517968_37);
-if (True == v__3517969_37) {
-Obj v__3517970_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517971_37 = PRIM_CAR(v__3517970_37);
-Obj v__3517972_37 = PRIM_ISCONS(v__3517971_37);
-if (True == v__3517972_37) {
-Obj v__3517973_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517974_37 = PRIM_CAR(v__3517973_37);
-Obj v__3517975_37 = PRIM_CAR(v__3517974_37);
-Obj v__3517976_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517975_37);
-if (True == v__3517976_37) {
-Obj v__3517977_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517978_37 = PRIM_CAR(v__3517977_37);
-Obj v__3517979_37 = PRIM_CDR(v__3517978_37);
-Obj v__3517486_37 = v__3517979_37;
-Obj v__3517980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517981_37 = PRIM_CDR(v__3517980_37);
-Obj v__3517487_37 = v__3517981_37;
-Obj v__3517982_37 = primGenSym(co);
-Obj v__3517488_37 = v__3517982_37;
-Obj v__3517983_37 = primGenSym(co);
-Obj v__3517489_37 = v__3517983_37;
-Obj v__3517984_37 = makeCons(co->gc, v__3517489_37, Nil);
-Obj v__3517985_37 = makeCons(co->gc, v__3517489_37, v__3517487_37);
-Obj v__3517986_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517985_37);
-Obj v__3517987_37 = makeCons(co->gc, v__3517986_37, Nil);
-Obj v__3517988_37 = makeCons(co->gc, v__3517984_37, v__3517987_37);
-Obj v__3517989_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517988_37);
-Obj v__3517990_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517486_37);
-Obj v__3517991_37 = makeCons(co->gc, v__3517990_37, Nil);
-Obj v__3517992_37 = makeCons(co->gc, v__3517488_37, v__3517991_37);
-Obj v__3517993_37 = makeCons(co->gc, v__3517992_37, Nil);
-Obj v__3517994_37 = makeCons(co->gc, v__3517989_37, v__3517993_37);
-Obj v__3517995_37 = makeCons(co->gc, v__3517488_37, v__3517994_37);
-Obj v__3517996_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517995_37);
+Obj v__3517531_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518036_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518036_37) {
+Obj v__3518037_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518038_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518037_37);
+if (True == v__3518038_37) {
+Obj v__3518039_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518040_37 = PRIM_ISCONS(v__3518039_37);
+if (True == v__3518040_37) {
+Obj v__3518041_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518042_37 = PRIM_CAR(v__3518041_37);
+Obj v__3518043_37 = PRIM_ISCONS(v__3518042_37);
+if (True == v__3518043_37) {
+Obj v__3518044_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518045_37 = PRIM_CAR(v__3518044_37);
+Obj v__3518046_37 = PRIM_CAR(v__3518045_37);
+Obj v__3518047_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518046_37);
+if (True == v__3518047_37) {
+Obj v__3518048_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518049_37 = PRIM_CAR(v__3518048_37);
+Obj v__3518050_37 = PRIM_CDR(v__3518049_37);
+Obj v__3517555_37 = v__3518050_37;
+Obj v__3518051_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518052_37 = PRIM_CDR(v__3518051_37);
+Obj v__3517556_37 = v__3518052_37;
+Obj v__3518053_37 = primGenSym(co);
+Obj v__3517557_37 = v__3518053_37;
+Obj v__3518054_37 = primGenSym(co);
+Obj v__3517558_37 = v__3518054_37;
+Obj v__3518055_37 = makeCons(co->gc, v__3517558_37, Nil);
+Obj v__3518056_37 = makeCons(co->gc, v__3517558_37, v__3517556_37);
+Obj v__3518057_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518056_37);
+Obj v__3518058_37 = makeCons(co->gc, v__3518057_37, Nil);
+Obj v__3518059_37 = makeCons(co->gc, v__3518055_37, v__3518058_37);
+Obj v__3518060_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518059_37);
+Obj v__3518061_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517555_37);
+Obj v__3518062_37 = makeCons(co->gc, v__3518061_37, Nil);
+Obj v__3518063_37 = makeCons(co->gc, v__3517557_37, v__3518062_37);
+Obj v__3518064_37 = makeCons(co->gc, v__3518063_37, Nil);
+Obj v__3518065_37 = makeCons(co->gc, v__3518060_37, v__3518064_37);
+Obj v__3518066_37 = makeCons(co->gc, v__3517557_37, v__3518065_37);
+Obj v__3518067_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518066_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517996_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518067_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517465_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517465_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517465_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517465_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517465_37);
+coraCall0(co, v__3517531_37);
 return;
 }
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517466_37 = makeNative(co->gc, 2, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517958_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517958_37) {
-Obj v__3517959_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517960_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517959_37);
-if (True == v__3517960_37) {
-Obj v__3517961_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517485_37 = v__3517961_37;
-R[1] = v__3517485_37;
-saveCont(co, clofun16, 2, R);
+Obj v__3517532_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518029_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518029_37) {
+Obj v__3518030_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518031_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518030_37);
+if (True == v__3518031_37) {
+Obj v__3518032_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517554_37 = v__3518032_37;
+R[1] = v__3517554_37;
+saveCont(co, clofun17, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517466_37);
+coraCall0(co, v__3517532_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517466_37);
+coraCall0(co, v__3517532_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517963_37= co->res;
-Obj v__3517964_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517963_37);
-coraReturn(co, v__3517964_37);
+Obj v__3518034_37= co->res;
+Obj v__3518035_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518034_37);
+coraReturn(co, v__3518035_37);
 return;
 }
 case 2:
 {
-Obj v__3517962_37= co->res;
-Obj v__3517485_37 = R[1];
-saveCont(co, clofun16, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517962_37, v__3517485_37);
+Obj v__3518033_37= co->res;
+Obj v__3517554_37 = R[1];
+saveCont(co, clofun17, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518033_37, v__3517554_37);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517467_37 = makeNative(co->gc, 4, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517936_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517936_37) {
-Obj v__3517937_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517938_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3517937_37);
-if (True == v__3517938_37) {
-Obj v__3517939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517940_37 = PRIM_ISCONS(v__3517939_37);
-if (True == v__3517940_37) {
-Obj v__3517941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517942_37 = PRIM_CAR(v__3517941_37);
-Obj v__3517483_37 = v__3517942_37;
-Obj v__3517943_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517944_37 = PRIM_CDR(v__3517943_37);
-Obj v__3517945_37 = PRIM_ISCONS(v__3517944_37);
-if (True == v__3517945_37) {
-Obj v__3517946_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517947_37 = PRIM_CDR(v__3517946_37);
-Obj v__3517948_37 = PRIM_CAR(v__3517947_37);
-Obj v__3517484_37 = v__3517948_37;
-Obj v__3517949_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517950_37 = PRIM_CDR(v__3517949_37);
-Obj v__3517951_37 = PRIM_CDR(v__3517950_37);
-Obj v__3517952_37 = PRIM_EQ(Nil, v__3517951_37);
-if (True == v__3517952_37) {
-R[1] = v__3517484_37;
-saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517483_37);
+Obj v__3517533_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518007_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518007_37) {
+Obj v__3518008_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518009_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518008_37);
+if (True == v__3518009_37) {
+Obj v__3518010_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518011_37 = PRIM_ISCONS(v__3518010_37);
+if (True == v__3518011_37) {
+Obj v__3518012_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518013_37 = PRIM_CAR(v__3518012_37);
+Obj v__3517552_37 = v__3518013_37;
+Obj v__3518014_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518015_37 = PRIM_CDR(v__3518014_37);
+Obj v__3518016_37 = PRIM_ISCONS(v__3518015_37);
+if (True == v__3518016_37) {
+Obj v__3518017_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518018_37 = PRIM_CDR(v__3518017_37);
+Obj v__3518019_37 = PRIM_CAR(v__3518018_37);
+Obj v__3517553_37 = v__3518019_37;
+Obj v__3518020_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518021_37 = PRIM_CDR(v__3518020_37);
+Obj v__3518022_37 = PRIM_CDR(v__3518021_37);
+Obj v__3518023_37 = PRIM_EQ(Nil, v__3518022_37);
+if (True == v__3518023_37) {
+R[1] = v__3517553_37;
+saveCont(co, clofun16, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517552_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517467_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517467_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517467_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517467_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517467_37);
+coraCall0(co, v__3517533_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517954_37= co->res;
-Obj v__3517953_37 = R[1];
-Obj v__3517955_37 = makeCons(co->gc, v__3517954_37, Nil);
-Obj v__3517956_37 = makeCons(co->gc, v__3517953_37, v__3517955_37);
-Obj v__3517957_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3517956_37);
-coraReturn(co, v__3517957_37);
+Obj v__3518025_37= co->res;
+Obj v__3518024_37 = R[1];
+Obj v__3518026_37 = makeCons(co->gc, v__3518025_37, Nil);
+Obj v__3518027_37 = makeCons(co->gc, v__3518024_37, v__3518026_37);
+Obj v__3518028_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518027_37);
+coraReturn(co, v__3518028_37);
 return;
 }
 case 2:
 {
-Obj v__3517953_37= co->res;
-Obj v__3517484_37 = R[1];
-R[1] = v__3517953_37;
-saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517484_37);
+Obj v__3518024_37= co->res;
+Obj v__3517553_37 = R[1];
+R[1] = v__3518024_37;
+saveCont(co, clofun16, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517553_37);
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517468_37 = makeNative(co->gc, 1, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517901_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517901_37) {
-Obj v__3517902_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517903_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3517902_37);
-if (True == v__3517903_37) {
-Obj v__3517904_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517905_37 = PRIM_ISCONS(v__3517904_37);
-if (True == v__3517905_37) {
-Obj v__3517906_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517907_37 = PRIM_CAR(v__3517906_37);
-Obj v__3517479_37 = v__3517907_37;
-Obj v__3517908_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517909_37 = PRIM_CDR(v__3517908_37);
-Obj v__3517910_37 = PRIM_ISCONS(v__3517909_37);
-if (True == v__3517910_37) {
-Obj v__3517911_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517912_37 = PRIM_CDR(v__3517911_37);
-Obj v__3517913_37 = PRIM_CAR(v__3517912_37);
-Obj v__3517480_37 = v__3517913_37;
-Obj v__3517914_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517915_37 = PRIM_CDR(v__3517914_37);
-Obj v__3517916_37 = PRIM_CDR(v__3517915_37);
-Obj v__3517917_37 = PRIM_ISCONS(v__3517916_37);
-if (True == v__3517917_37) {
-Obj v__3517918_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517919_37 = PRIM_CDR(v__3517918_37);
-Obj v__3517920_37 = PRIM_CDR(v__3517919_37);
-Obj v__3517921_37 = PRIM_CAR(v__3517920_37);
-Obj v__3517481_37 = v__3517921_37;
-Obj v__3517922_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517923_37 = PRIM_CDR(v__3517922_37);
-Obj v__3517924_37 = PRIM_CDR(v__3517923_37);
-Obj v__3517925_37 = PRIM_CDR(v__3517924_37);
-Obj v__3517926_37 = PRIM_EQ(Nil, v__3517925_37);
-if (True == v__3517926_37) {
-Obj v__3517927_37 = primGenSym(co);
-Obj v__3517482_37 = v__3517927_37;
-R[1] = v__3517479_37;
-R[2] = v__3517481_37;
-R[3] = v__3517482_37;
-saveCont(co, clofun14, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517480_37);
+Obj v__3517534_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3517972_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517972_37) {
+Obj v__3517973_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517974_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3517973_37);
+if (True == v__3517974_37) {
+Obj v__3517975_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517976_37 = PRIM_ISCONS(v__3517975_37);
+if (True == v__3517976_37) {
+Obj v__3517977_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517978_37 = PRIM_CAR(v__3517977_37);
+Obj v__3517548_37 = v__3517978_37;
+Obj v__3517979_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517980_37 = PRIM_CDR(v__3517979_37);
+Obj v__3517981_37 = PRIM_ISCONS(v__3517980_37);
+if (True == v__3517981_37) {
+Obj v__3517982_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517983_37 = PRIM_CDR(v__3517982_37);
+Obj v__3517984_37 = PRIM_CAR(v__3517983_37);
+Obj v__3517549_37 = v__3517984_37;
+Obj v__3517985_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517986_37 = PRIM_CDR(v__3517985_37);
+Obj v__3517987_37 = PRIM_CDR(v__3517986_37);
+Obj v__3517988_37 = PRIM_ISCONS(v__3517987_37);
+if (True == v__3517988_37) {
+Obj v__3517989_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517990_37 = PRIM_CDR(v__3517989_37);
+Obj v__3517991_37 = PRIM_CDR(v__3517990_37);
+Obj v__3517992_37 = PRIM_CAR(v__3517991_37);
+Obj v__3517550_37 = v__3517992_37;
+Obj v__3517993_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517994_37 = PRIM_CDR(v__3517993_37);
+Obj v__3517995_37 = PRIM_CDR(v__3517994_37);
+Obj v__3517996_37 = PRIM_CDR(v__3517995_37);
+Obj v__3517997_37 = PRIM_EQ(Nil, v__3517996_37);
+if (True == v__3517997_37) {
+Obj v__3517998_37 = primGenSym(co);
+Obj v__3517551_37 = v__3517998_37;
+R[1] = v__3517548_37;
+R[2] = v__3517550_37;
+R[3] = v__3517551_37;
+saveCont(co, clofun15, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517549_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517468_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517468_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517468_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517468_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517468_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517468_37);
+coraCall0(co, v__3517534_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517931_37= co->res;
-Obj v__3517928_37 = R[1];
-Obj v__3517482_37 = R[2];
-Obj v__3517932_37 = makeCons(co->gc, v__3517931_37, Nil);
-Obj v__3517933_37 = makeCons(co->gc, v__3517928_37, v__3517932_37);
-Obj v__3517934_37 = makeCons(co->gc, v__3517482_37, v__3517933_37);
-Obj v__3517935_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517934_37);
-coraReturn(co, v__3517935_37);
+Obj v__3518002_37= co->res;
+Obj v__3517999_37 = R[1];
+Obj v__3517551_37 = R[2];
+Obj v__3518003_37 = makeCons(co->gc, v__3518002_37, Nil);
+Obj v__3518004_37 = makeCons(co->gc, v__3517999_37, v__3518003_37);
+Obj v__3518005_37 = makeCons(co->gc, v__3517551_37, v__3518004_37);
+Obj v__3518006_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518005_37);
+coraReturn(co, v__3518006_37);
 return;
 }
 case 2:
 {
-Obj v__3517928_37= co->res;
-Obj v__3517479_37 = R[1];
-Obj v__3517481_37 = R[2];
-Obj v__3517482_37 = R[3];
-Obj v__3517929_37 = makeCons(co->gc, v__3517479_37, v__3517482_37);
-Obj v__3517930_37 = makeCons(co->gc, v__3517929_37, closureRef(R[0], 1));
-R[1] = v__3517928_37;
-R[2] = v__3517482_37;
-saveCont(co, clofun14, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3517930_37, closureRef(R[0], 2), v__3517481_37);
+Obj v__3517999_37= co->res;
+Obj v__3517548_37 = R[1];
+Obj v__3517550_37 = R[2];
+Obj v__3517551_37 = R[3];
+Obj v__3518000_37 = makeCons(co->gc, v__3517548_37, v__3517551_37);
+Obj v__3518001_37 = makeCons(co->gc, v__3518000_37, closureRef(R[0], 1));
+R[1] = v__3517999_37;
+R[2] = v__3517551_37;
+saveCont(co, clofun15, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518001_37, closureRef(R[0], 2), v__3517550_37);
 return;
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517469_37 = makeNative(co->gc, 4, clofun12, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517869_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517869_37) {
-Obj v__3517870_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517871_37 = PRIM_ISCONS(v__3517870_37);
-if (True == v__3517871_37) {
-Obj v__3517872_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517873_37 = PRIM_CAR(v__3517872_37);
-Obj v__3517874_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517873_37);
-if (True == v__3517874_37) {
-Obj v__3517875_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517876_37 = PRIM_CDR(v__3517875_37);
-Obj v__3517476_37 = v__3517876_37;
-Obj v__3517877_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517878_37 = PRIM_ISCONS(v__3517877_37);
-if (True == v__3517878_37) {
-Obj v__3517879_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517880_37 = PRIM_CAR(v__3517879_37);
-Obj v__3517881_37 = PRIM_ISCONS(v__3517880_37);
-if (True == v__3517881_37) {
-Obj v__3517882_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517883_37 = PRIM_CAR(v__3517882_37);
-Obj v__3517884_37 = PRIM_CAR(v__3517883_37);
-Obj v__3517885_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517884_37);
-if (True == v__3517885_37) {
-Obj v__3517886_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517887_37 = PRIM_CAR(v__3517886_37);
-Obj v__3517888_37 = PRIM_CDR(v__3517887_37);
-Obj v__3517477_37 = v__3517888_37;
-Obj v__3517889_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517890_37 = PRIM_CDR(v__3517889_37);
-Obj v__3517891_37 = PRIM_EQ(Nil, v__3517890_37);
-if (True == v__3517891_37) {
-Obj v__3517892_37 = primGenSym(co);
-Obj v__3517478_37 = v__3517892_37;
-Obj v__3517893_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517476_37);
-Obj v__3517894_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517477_37);
-Obj v__3517895_37 = makeCons(co->gc, v__3517894_37, Nil);
-Obj v__3517896_37 = makeCons(co->gc, v__3517478_37, v__3517895_37);
-Obj v__3517897_37 = makeCons(co->gc, v__3517896_37, Nil);
-Obj v__3517898_37 = makeCons(co->gc, v__3517893_37, v__3517897_37);
-Obj v__3517899_37 = makeCons(co->gc, v__3517478_37, v__3517898_37);
-Obj v__3517900_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517899_37);
+Obj v__3517535_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj v__3517940_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517940_37) {
+Obj v__3517941_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517942_37 = PRIM_ISCONS(v__3517941_37);
+if (True == v__3517942_37) {
+Obj v__3517943_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517944_37 = PRIM_CAR(v__3517943_37);
+Obj v__3517945_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517944_37);
+if (True == v__3517945_37) {
+Obj v__3517946_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517947_37 = PRIM_CDR(v__3517946_37);
+Obj v__3517545_37 = v__3517947_37;
+Obj v__3517948_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517949_37 = PRIM_ISCONS(v__3517948_37);
+if (True == v__3517949_37) {
+Obj v__3517950_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517951_37 = PRIM_CAR(v__3517950_37);
+Obj v__3517952_37 = PRIM_ISCONS(v__3517951_37);
+if (True == v__3517952_37) {
+Obj v__3517953_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517954_37 = PRIM_CAR(v__3517953_37);
+Obj v__3517955_37 = PRIM_CAR(v__3517954_37);
+Obj v__3517956_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517955_37);
+if (True == v__3517956_37) {
+Obj v__3517957_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517958_37 = PRIM_CAR(v__3517957_37);
+Obj v__3517959_37 = PRIM_CDR(v__3517958_37);
+Obj v__3517546_37 = v__3517959_37;
+Obj v__3517960_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517961_37 = PRIM_CDR(v__3517960_37);
+Obj v__3517962_37 = PRIM_EQ(Nil, v__3517961_37);
+if (True == v__3517962_37) {
+Obj v__3517963_37 = primGenSym(co);
+Obj v__3517547_37 = v__3517963_37;
+Obj v__3517964_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517545_37);
+Obj v__3517965_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517546_37);
+Obj v__3517966_37 = makeCons(co->gc, v__3517965_37, Nil);
+Obj v__3517967_37 = makeCons(co->gc, v__3517547_37, v__3517966_37);
+Obj v__3517968_37 = makeCons(co->gc, v__3517967_37, Nil);
+Obj v__3517969_37 = makeCons(co->gc, v__3517964_37, v__3517968_37);
+Obj v__3517970_37 = makeCons(co->gc, v__3517547_37, v__3517969_37);
+Obj v__3517971_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517970_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517971_37);
+return;
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3517535_37);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall0(co, v__3517535_37);
+return;
+}
+} else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517900_37);
+coraCall0(co, v__3517535_37);
 return;
+}
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall0(co, v__3517535_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall0(co, v__3517535_37);
 return;
 }
+}
+}
+}
+
+static void clofun13(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3517536_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3517918_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517918_37) {
+Obj v__3517919_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517537_37 = v__3517919_37;
+Obj v__3517920_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517538_37 = v__3517920_37;
+Obj v__3517541_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3517537_37, v__3517538_37, v__3517536_37);
+R[1] = v__3517537_37;
+R[2] = v__3517541_37;
+saveCont(co, clofun13, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517537_37);
+return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall0(co, v__3517536_37);
 return;
 }
+}
+case 1:
+{
+Obj v__3517939_37= co->res;
+Obj v__3517541_37 = R[1];
+if (True == v__3517939_37) {
+co->ctx.sp = R;
+coraCall1(co, v__3517541_37, True);
+return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall1(co, v__3517541_37, False);
+return;
+}
+}
+case 2:
+{
+Obj v__3517938_37= co->res;
+Obj v__3517541_37 = R[1];
+R[1] = v__3517541_37;
+saveCont(co, clofun13, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517938_37);
 return;
 }
+case 3:
+{
+Obj v__3517937_37= co->res;
+Obj v__3517537_37 = R[1];
+Obj v__3517541_37 = R[2];
+if (True == v__3517937_37) {
+R[1] = v__3517541_37;
+saveCont(co, clofun13, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3517537_37, closureRef(R[0], 2));
+return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517469_37);
+coraCall1(co, v__3517541_37, False);
 return;
 }
 }
@@ -8401,90 +8491,74 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517470_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 0));
-Obj v__3517849_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517849_37) {
-Obj v__3517850_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517471_37 = v__3517850_37;
-Obj v__3517851_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517472_37 = v__3517851_37;
-R[1] = v__3517471_37;
-R[2] = v__3517472_37;
-R[3] = v__3517470_37;
-saveCont(co, clofun12, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517471_37);
+Obj v__3517540_37 = R[1];
+if (True == v__3517540_37) {
+saveCont(co, clofun12, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517470_37);
+coraCall0(co, closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3517859_37= co->res;
-Obj v__3517857_37 = R[1];
-Obj v__3517860_37 = makeCons(co->gc, v__3517857_37, v__3517859_37);
-coraReturn(co, v__3517860_37);
+Obj v__3517927_37= co->res;
+Obj v__3517925_37 = R[1];
+Obj v__3517928_37 = makeCons(co->gc, v__3517925_37, v__3517927_37);
+coraReturn(co, v__3517928_37);
 return;
 }
 case 2:
 {
-Obj v__3517858_37= co->res;
-Obj v__3517472_37 = R[1];
-Obj v__3517857_37 = R[2];
-R[1] = v__3517857_37;
+Obj v__3517926_37= co->res;
+Obj v__3517925_37 = R[1];
+R[1] = v__3517925_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517858_37, v__3517472_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517926_37, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v__3517865_37= co->res;
-Obj v__3517475_37 = R[1];
-Obj v__3517866_37 = makeCons(co->gc, v__3517865_37, Nil);
-Obj v__3517867_37 = makeCons(co->gc, v__3517475_37, v__3517866_37);
-Obj v__3517868_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517867_37);
+Obj v__3517933_37= co->res;
+Obj v__3517544_37 = R[1];
+Obj v__3517934_37 = makeCons(co->gc, v__3517933_37, Nil);
+Obj v__3517935_37 = makeCons(co->gc, v__3517544_37, v__3517934_37);
+Obj v__3517936_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517935_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517868_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), v__3517936_37);
 return;
 }
 case 4:
 {
-Obj v__3517863_37= co->res;
-Obj v__3517471_37 = R[1];
-Obj v__3517472_37 = R[2];
-Obj v__3517475_37 = v__3517863_37;
-Obj v__3517864_37 = makeCons(co->gc, v__3517471_37, v__3517472_37);
-R[1] = v__3517475_37;
+Obj v__3517931_37= co->res;
+Obj v__3517544_37 = v__3517931_37;
+Obj v__3517932_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
+R[1] = v__3517544_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3517864_37, v__3517475_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3517932_37, v__3517544_37);
 return;
 }
 case 5:
 {
-Obj v__3517854_37= co->res;
-Obj v__3517473_37 = R[1];
-Obj v__3517471_37 = R[2];
-Obj v__3517472_37 = R[3];
-Obj v__3517474_37 = v__3517854_37;
-Obj v__3517855_37 = PRIM_EQ(v__3517473_37, v__3517474_37);
-if (True == v__3517855_37) {
-Obj v__3517856_37 = makeCons(co->gc, v__3517471_37, Nil);
-Obj v__3517857_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3517856_37);
-R[1] = v__3517472_37;
-R[2] = v__3517857_37;
+Obj v__3517922_37= co->res;
+Obj v__3517542_37 = R[1];
+Obj v__3517543_37 = v__3517922_37;
+Obj v__3517923_37 = PRIM_EQ(v__3517542_37, v__3517543_37);
+if (True == v__3517923_37) {
+Obj v__3517924_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3517925_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3517924_37);
+R[1] = v__3517925_37;
 saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517861_37 = PRIM_GT(v__3517473_37, v__3517474_37);
-if (True == v__3517861_37) {
-Obj v__3517862_37 = PRIM_SUB(v__3517473_37, v__3517474_37);
-R[1] = v__3517471_37;
-R[2] = v__3517472_37;
+Obj v__3517929_37 = PRIM_GT(v__3517542_37, v__3517543_37);
+if (True == v__3517929_37) {
+Obj v__3517930_37 = PRIM_SUB(v__3517542_37, v__3517543_37);
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517862_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517930_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8495,37 +8569,15 @@ return;
 }
 case 6:
 {
-Obj v__3517853_37= co->res;
-Obj v__3517471_37 = R[1];
-Obj v__3517472_37 = R[2];
-Obj v__3517473_37 = v__3517853_37;
-R[1] = v__3517473_37;
-R[2] = v__3517471_37;
-R[3] = v__3517472_37;
+Obj v__3517921_37= co->res;
+Obj v__3517542_37 = v__3517921_37;
+R[1] = v__3517542_37;
 saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517472_37);
-return;
-}
-case 7:
-{
-Obj v__3517852_37= co->res;
-Obj v__3517471_37 = R[1];
-Obj v__3517472_37 = R[2];
-Obj v__3517470_37 = R[3];
-if (True == v__3517852_37) {
-R[1] = v__3517471_37;
-R[2] = v__3517472_37;
-saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3517471_37);
-return;
-} else {
-co->ctx.sp = R;
-coraCall0(co, v__3517470_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), closureRef(R[0], 3));
 return;
 }
 }
 }
-}
 
 static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
@@ -8537,9 +8589,9 @@ return;
 }
 case 1:
 {
-Obj v__3517848_37= co->res;
+Obj v__3517917_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517848_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517917_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8549,18 +8601,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517298_37 = R[1];
-Obj v__3517299_37 = R[2];
-Obj v__3517834_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517298_37);
-if (True == v__3517834_37) {
-coraReturn(co, v__3517299_37);
+Obj v__3517364_37 = R[1];
+Obj v__3517365_37 = R[2];
+Obj v__3517903_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517364_37);
+if (True == v__3517903_37) {
+coraReturn(co, v__3517365_37);
 return;
 } else {
-Obj v__3517835_37 = PRIM_SUB(v__3517298_37, MAKE_NUMBER(1));
-Obj v__3517836_37 = primGenSym(co);
-Obj v__3517837_37 = makeCons(co->gc, v__3517836_37, v__3517299_37);
+Obj v__3517904_37 = PRIM_SUB(v__3517364_37, MAKE_NUMBER(1));
+Obj v__3517905_37 = primGenSym(co);
+Obj v__3517906_37 = makeCons(co->gc, v__3517905_37, v__3517365_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517835_37, v__3517837_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517904_37, v__3517906_37);
 return;
 }
 }
@@ -8578,24 +8630,24 @@ return;
 }
 case 1:
 {
-Obj v__3517832_37= co->res;
-Obj v__3517458_37 = R[1];
-if (True == v__3517832_37) {
+Obj v__3517901_37= co->res;
+Obj v__3517524_37 = R[1];
+if (True == v__3517901_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517458_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517524_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517831_37= co->res;
-Obj v__3517458_37 = v__3517831_37;
-R[1] = v__3517458_37;
+Obj v__3517900_37= co->res;
+Obj v__3517524_37 = v__3517900_37;
+R[1] = v__3517524_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517458_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517524_37);
 return;
 }
 }
@@ -8612,24 +8664,24 @@ return;
 }
 case 1:
 {
-Obj v__3517829_37= co->res;
-Obj v__3517457_37 = R[1];
-if (True == v__3517829_37) {
+Obj v__3517898_37= co->res;
+Obj v__3517523_37 = R[1];
+if (True == v__3517898_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517457_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517523_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517828_37= co->res;
-Obj v__3517457_37 = v__3517828_37;
-R[1] = v__3517457_37;
+Obj v__3517897_37= co->res;
+Obj v__3517523_37 = v__3517897_37;
+R[1] = v__3517523_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517457_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517523_37);
 return;
 }
 }
@@ -8646,16 +8698,16 @@ return;
 }
 case 1:
 {
-Obj v__3517825_37= co->res;
-Obj v__3517826_37 = primNot(v__3517825_37);
-coraReturn(co, v__3517826_37);
+Obj v__3517894_37= co->res;
+Obj v__3517895_37 = primNot(v__3517894_37);
+coraReturn(co, v__3517895_37);
 return;
 }
 case 2:
 {
-Obj v__3517824_37= co->res;
+Obj v__3517893_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517824_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517893_37);
 return;
 }
 }
@@ -8665,23 +8717,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517294_37 = R[1];
-Obj v__3517295_37 = R[2];
-Obj v__3517748_37 = PRIM_EQ(Nil, v__3517295_37);
-if (True == v__3517748_37) {
+Obj v__3517360_37 = R[1];
+Obj v__3517361_37 = R[2];
+Obj v__3517817_37 = PRIM_EQ(Nil, v__3517361_37);
+if (True == v__3517817_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3517749_37 = PRIM_ISCONS(v__3517295_37);
-if (True == v__3517749_37) {
-Obj v__3517750_37 = PRIM_CAR(v__3517295_37);
-Obj v__3517455_37 = v__3517750_37;
-Obj v__3517751_37 = PRIM_CDR(v__3517295_37);
-Obj v__3517456_37 = v__3517751_37;
-R[1] = v__3517294_37;
-R[2] = v__3517456_37;
+Obj v__3517818_37 = PRIM_ISCONS(v__3517361_37);
+if (True == v__3517818_37) {
+Obj v__3517819_37 = PRIM_CAR(v__3517361_37);
+Obj v__3517521_37 = v__3517819_37;
+Obj v__3517820_37 = PRIM_CDR(v__3517361_37);
+Obj v__3517522_37 = v__3517820_37;
+R[1] = v__3517360_37;
+R[2] = v__3517522_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517294_37, v__3517455_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517360_37, v__3517521_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8692,13 +8744,13 @@ return;
 }
 case 1:
 {
-Obj v__3517752_37= co->res;
-Obj v__3517294_37 = R[1];
-Obj v__3517456_37 = R[2];
-Obj v__3517753_37 = PRIM_LT(v__3517752_37, MAKE_NUMBER(0));
-if (True == v__3517753_37) {
+Obj v__3517821_37= co->res;
+Obj v__3517360_37 = R[1];
+Obj v__3517522_37 = R[2];
+Obj v__3517822_37 = PRIM_LT(v__3517821_37, MAKE_NUMBER(0));
+if (True == v__3517822_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3517294_37, v__3517456_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3517360_37, v__3517522_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8725,32 +8777,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517288_37 = R[1];
-Obj v__3517289_37 = R[2];
-Obj v__3517290_37 = R[3];
-Obj v__3517737_37 = PRIM_EQ(Nil, v__3517290_37);
-if (True == v__3517737_37) {
+Obj v__3517354_37 = R[1];
+Obj v__3517355_37 = R[2];
+Obj v__3517356_37 = R[3];
+Obj v__3517806_37 = PRIM_EQ(Nil, v__3517356_37);
+if (True == v__3517806_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3517452_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517290_37, v__3517288_37, v__3517289_37);
-Obj v__3517742_37 = PRIM_ISCONS(v__3517290_37);
-if (True == v__3517742_37) {
-Obj v__3517743_37 = PRIM_CAR(v__3517290_37);
-Obj v__3517454_37 = v__3517743_37;
-Obj v__3517744_37 = PRIM_CDR(v__3517290_37);
-Obj v__3517745_37 = PRIM_EQ(v__3517289_37, v__3517454_37);
-if (True == v__3517745_37) {
-coraReturn(co, v__3517288_37);
+Obj v__3517518_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517356_37, v__3517354_37, v__3517355_37);
+Obj v__3517811_37 = PRIM_ISCONS(v__3517356_37);
+if (True == v__3517811_37) {
+Obj v__3517812_37 = PRIM_CAR(v__3517356_37);
+Obj v__3517520_37 = v__3517812_37;
+Obj v__3517813_37 = PRIM_CDR(v__3517356_37);
+Obj v__3517814_37 = PRIM_EQ(v__3517355_37, v__3517520_37);
+if (True == v__3517814_37) {
+coraReturn(co, v__3517354_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517452_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517452_37);
+coraCall0(co, v__3517518_37);
 return;
 }
 }
@@ -8762,14 +8814,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517738_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517738_37) {
-Obj v__3517739_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517740_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517453_37 = v__3517740_37;
-Obj v__3517741_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3517807_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517807_37) {
+Obj v__3517808_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517809_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517519_37 = v__3517809_37;
+Obj v__3517810_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3517741_37, closureRef(R[0], 2), v__3517453_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3517810_37, closureRef(R[0], 2), v__3517519_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8784,24 +8836,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517283_37 = R[1];
-Obj v__3517284_37 = R[2];
-Obj v__3517285_37 = R[3];
-Obj v__3517731_37 = PRIM_EQ(Nil, v__3517285_37);
-if (True == v__3517731_37) {
-coraReturn(co, v__3517284_37);
+Obj v__3517349_37 = R[1];
+Obj v__3517350_37 = R[2];
+Obj v__3517351_37 = R[3];
+Obj v__3517800_37 = PRIM_EQ(Nil, v__3517351_37);
+if (True == v__3517800_37) {
+coraReturn(co, v__3517350_37);
 return;
 } else {
-Obj v__3517732_37 = PRIM_ISCONS(v__3517285_37);
-if (True == v__3517732_37) {
-Obj v__3517733_37 = PRIM_CAR(v__3517285_37);
-Obj v__3517450_37 = v__3517733_37;
-Obj v__3517734_37 = PRIM_CDR(v__3517285_37);
-Obj v__3517451_37 = v__3517734_37;
-R[1] = v__3517283_37;
-R[2] = v__3517451_37;
+Obj v__3517801_37 = PRIM_ISCONS(v__3517351_37);
+if (True == v__3517801_37) {
+Obj v__3517802_37 = PRIM_CAR(v__3517351_37);
+Obj v__3517516_37 = v__3517802_37;
+Obj v__3517803_37 = PRIM_CDR(v__3517351_37);
+Obj v__3517517_37 = v__3517803_37;
+R[1] = v__3517349_37;
+R[2] = v__3517517_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3517283_37, v__3517284_37, v__3517450_37);
+coraCall2(co, v__3517349_37, v__3517350_37, v__3517516_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8812,11 +8864,11 @@ return;
 }
 case 1:
 {
-Obj v__3517735_37= co->res;
-Obj v__3517283_37 = R[1];
-Obj v__3517451_37 = R[2];
+Obj v__3517804_37= co->res;
+Obj v__3517349_37 = R[1];
+Obj v__3517517_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3517283_37, v__3517735_37, v__3517451_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3517349_37, v__3517804_37, v__3517517_37);
 return;
 }
 }
@@ -8826,44 +8878,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517278_37 = R[1];
-Obj v__3517279_37 = R[2];
-Obj v__3517716_37 = PRIM_EQ(Nil, v__3517279_37);
-if (True == v__3517716_37) {
+Obj v__3517344_37 = R[1];
+Obj v__3517345_37 = R[2];
+Obj v__3517785_37 = PRIM_EQ(Nil, v__3517345_37);
+if (True == v__3517785_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517446_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517279_37, v__3517278_37);
-Obj v__3517720_37 = PRIM_ISCONS(v__3517279_37);
-if (True == v__3517720_37) {
-Obj v__3517721_37 = PRIM_CAR(v__3517279_37);
-Obj v__3517722_37 = PRIM_ISCONS(v__3517721_37);
-if (True == v__3517722_37) {
-Obj v__3517723_37 = PRIM_CAR(v__3517279_37);
-Obj v__3517724_37 = PRIM_CAR(v__3517723_37);
-Obj v__3517448_37 = v__3517724_37;
-Obj v__3517725_37 = PRIM_CAR(v__3517279_37);
-Obj v__3517726_37 = PRIM_CDR(v__3517725_37);
-Obj v__3517449_37 = v__3517726_37;
-Obj v__3517727_37 = PRIM_CDR(v__3517279_37);
-Obj v__3517728_37 = PRIM_EQ(v__3517278_37, v__3517448_37);
-if (True == v__3517728_37) {
-Obj v__3517729_37 = makeCons(co->gc, v__3517448_37, v__3517449_37);
-coraReturn(co, v__3517729_37);
+Obj v__3517512_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517345_37, v__3517344_37);
+Obj v__3517789_37 = PRIM_ISCONS(v__3517345_37);
+if (True == v__3517789_37) {
+Obj v__3517790_37 = PRIM_CAR(v__3517345_37);
+Obj v__3517791_37 = PRIM_ISCONS(v__3517790_37);
+if (True == v__3517791_37) {
+Obj v__3517792_37 = PRIM_CAR(v__3517345_37);
+Obj v__3517793_37 = PRIM_CAR(v__3517792_37);
+Obj v__3517514_37 = v__3517793_37;
+Obj v__3517794_37 = PRIM_CAR(v__3517345_37);
+Obj v__3517795_37 = PRIM_CDR(v__3517794_37);
+Obj v__3517515_37 = v__3517795_37;
+Obj v__3517796_37 = PRIM_CDR(v__3517345_37);
+Obj v__3517797_37 = PRIM_EQ(v__3517344_37, v__3517514_37);
+if (True == v__3517797_37) {
+Obj v__3517798_37 = makeCons(co->gc, v__3517514_37, v__3517515_37);
+coraReturn(co, v__3517798_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517446_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517446_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517446_37);
+coraCall0(co, v__3517512_37);
 return;
 }
 }
@@ -8875,13 +8927,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517717_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517717_37) {
-Obj v__3517718_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517719_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517447_37 = v__3517719_37;
+Obj v__3517786_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517786_37) {
+Obj v__3517787_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517788_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517513_37 = v__3517788_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3517447_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3517513_37);
 return;
 } else {
 co->ctx.sp = R;
diff --git a/lib/toc.cora b/lib/toc.cora
index 1107507..37458a4 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -53,7 +53,10 @@
 
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
-	_ globals ['quote x] => (begin (add-symbol-to-list x globals) ['%const x])
+	env globals ['quote x] => (cond
+				   ((symbol? x) (begin (add-symbol-to-list x globals) ['%const x]))
+				   ((cons? x) (parse env globals ['cons ['quote (car x)] ['quote (cdr x)]]))
+				   (true ['%const x]))
 	;; env maps the source name of a local variable to its name in the output
 	env globals x => (let find (assq x env)
 			      (if (cons? find)
@@ -86,7 +89,7 @@
 					   (let tmp (temp-list (- required provided) ())
 						(parse env globals ['lambda tmp (append [op . args] tmp)])))
 					  (true (error "primitive call mismatch"))))
-	where (builtin? op)
+	where (and (builtin? op) (null? (assq op env)))
 	env globals ls => (map (parse env globals) ls))
 
   (func union
-- 
2.43.0


From 1a186fada7a6a17977118a0ab6255a621dc8abe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 20/90] fix: evaluate the value of a match once, before its
 patterns bind anything

[(f) 1] ran f once per use in a pattern, and a pattern variable named like a
variable of the matched value captured it: (match [a b] [b a] ...).
---
 init.c    | 3768 ++++++++++++++--------------
 init.cora |   29 +-
 lib/toc.c | 7214 ++++++++++++++++++++++++++---------------------------
 3 files changed, 5578 insertions(+), 5433 deletions(-)

diff --git a/init.c b/init.c
index 3c21d06..6b65bfa 100644
--- a/init.c
+++ b/init.c
@@ -2,6 +2,11 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun100(struct Cora* co, int label, Obj *R);
+static void clofun99(struct Cora* co, int label, Obj *R);
+static void clofun98(struct Cora* co, int label, Obj *R);
+static void clofun97(struct Cora* co, int label, Obj *R);
+static void clofun96(struct Cora* co, int label, Obj *R);
 static void clofun95(struct Cora* co, int label, Obj *R);
 static void clofun94(struct Cora* co, int label, Obj *R);
 static void clofun93(struct Cora* co, int label, Obj *R);
@@ -102,7 +107,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 162);
+Binding *__symbolTable = malloc(sizeof(Binding) * 163);
 __symbolTable[0] = bindSymbol(co, intern("cora/init#assq"));
 __symbolTable[1] = bindSymbol(co, intern("cora/init#append"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#filter"));
@@ -212,450 +217,452 @@ __symbolTable[105] = bindSymbol(co, intern("=>"));
 __symbolTable[106] = bindSymbol(co, intern("cora/init#extract-rules1"));
 __symbolTable[107] = bindSymbol(co, intern("match"));
 __symbolTable[108] = bindSymbol(co, intern("cora/init#rewrite-match"));
-__symbolTable[109] = bindSymbol(co, intern("cora/init#match-helper"));
-__symbolTable[110] = bindSymbol(co, intern("where"));
-__symbolTable[111] = bindSymbol(co, intern("cora/init#extract-rule-action"));
-__symbolTable[112] = bindSymbol(co, intern("str"));
-__symbolTable[113] = bindSymbol(co, intern("="));
-__symbolTable[114] = bindSymbol(co, intern("cdr"));
-__symbolTable[115] = bindSymbol(co, intern("car"));
-__symbolTable[116] = bindSymbol(co, intern("cons?"));
-__symbolTable[117] = bindSymbol(co, intern("cora/init#match1"));
-__symbolTable[118] = bindSymbol(co, intern("cora/init#match-cons-expander"));
-__symbolTable[119] = bindSymbol(co, intern("list-rest"));
-__symbolTable[120] = bindSymbol(co, intern("cora/init#rcons1"));
-__symbolTable[121] = bindSymbol(co, intern("boolean?"));
-__symbolTable[122] = bindSymbol(co, intern("and"));
-__symbolTable[123] = bindSymbol(co, intern("cora/init#rewrite-and"));
-__symbolTable[124] = bindSymbol(co, intern("or"));
-__symbolTable[125] = bindSymbol(co, intern("cora/init#rewrite-or"));
-__symbolTable[126] = bindSymbol(co, intern("if"));
-__symbolTable[127] = bindSymbol(co, intern("error"));
-__symbolTable[128] = bindSymbol(co, intern("cond"));
-__symbolTable[129] = bindSymbol(co, intern("let"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#rewrite-let"));
-__symbolTable[131] = bindSymbol(co, intern("atom?"));
-__symbolTable[132] = bindSymbol(co, intern("elem?"));
-__symbolTable[133] = bindSymbol(co, intern("def"));
-__symbolTable[134] = bindSymbol(co, intern("defun"));
-__symbolTable[135] = bindSymbol(co, intern("list"));
-__symbolTable[136] = bindSymbol(co, intern("defmacro"));
-__symbolTable[137] = bindSymbol(co, intern("defmacro-macro"));
-__symbolTable[138] = bindSymbol(co, intern("macroexpand"));
-__symbolTable[139] = bindSymbol(co, intern("quote"));
-__symbolTable[140] = bindSymbol(co, intern("lambda"));
-__symbolTable[141] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
-__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand1"));
-__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
-__symbolTable[144] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
-__symbolTable[145] = bindSymbol(co, intern("*protect-symbol*"));
-__symbolTable[146] = bindSymbol(co, intern("*macros*"));
-__symbolTable[147] = bindSymbol(co, intern("map"));
-__symbolTable[148] = bindSymbol(co, intern("map-h"));
-__symbolTable[149] = bindSymbol(co, intern("reverse"));
-__symbolTable[150] = bindSymbol(co, intern("cora/init#reverse-h"));
-__symbolTable[151] = bindSymbol(co, intern("pair?"));
-__symbolTable[152] = bindSymbol(co, intern("cons"));
-__symbolTable[153] = bindSymbol(co, intern("rcons"));
-__symbolTable[154] = bindSymbol(co, intern("cdddr"));
-__symbolTable[155] = bindSymbol(co, intern("cadddr"));
-__symbolTable[156] = bindSymbol(co, intern("caddr"));
-__symbolTable[157] = bindSymbol(co, intern("cddr"));
-__symbolTable[158] = bindSymbol(co, intern("cdar"));
-__symbolTable[159] = bindSymbol(co, intern("caar"));
-__symbolTable[160] = bindSymbol(co, intern("cadr"));
-__symbolTable[161] = bindSymbol(co, intern("null?"));
+__symbolTable[109] = bindSymbol(co, intern("cora/init#bind-match-value"));
+__symbolTable[110] = bindSymbol(co, intern("cora/init#match-helper"));
+__symbolTable[111] = bindSymbol(co, intern("where"));
+__symbolTable[112] = bindSymbol(co, intern("cora/init#extract-rule-action"));
+__symbolTable[113] = bindSymbol(co, intern("str"));
+__symbolTable[114] = bindSymbol(co, intern("="));
+__symbolTable[115] = bindSymbol(co, intern("cdr"));
+__symbolTable[116] = bindSymbol(co, intern("car"));
+__symbolTable[117] = bindSymbol(co, intern("cons?"));
+__symbolTable[118] = bindSymbol(co, intern("cora/init#match1"));
+__symbolTable[119] = bindSymbol(co, intern("cora/init#match-cons-expander"));
+__symbolTable[120] = bindSymbol(co, intern("list-rest"));
+__symbolTable[121] = bindSymbol(co, intern("cora/init#rcons1"));
+__symbolTable[122] = bindSymbol(co, intern("boolean?"));
+__symbolTable[123] = bindSymbol(co, intern("and"));
+__symbolTable[124] = bindSymbol(co, intern("cora/init#rewrite-and"));
+__symbolTable[125] = bindSymbol(co, intern("or"));
+__symbolTable[126] = bindSymbol(co, intern("cora/init#rewrite-or"));
+__symbolTable[127] = bindSymbol(co, intern("if"));
+__symbolTable[128] = bindSymbol(co, intern("error"));
+__symbolTable[129] = bindSymbol(co, intern("cond"));
+__symbolTable[130] = bindSymbol(co, intern("let"));
+__symbolTable[131] = bindSymbol(co, intern("cora/init#rewrite-let"));
+__symbolTable[132] = bindSymbol(co, intern("atom?"));
+__symbolTable[133] = bindSymbol(co, intern("elem?"));
+__symbolTable[134] = bindSymbol(co, intern("def"));
+__symbolTable[135] = bindSymbol(co, intern("defun"));
+__symbolTable[136] = bindSymbol(co, intern("list"));
+__symbolTable[137] = bindSymbol(co, intern("defmacro"));
+__symbolTable[138] = bindSymbol(co, intern("defmacro-macro"));
+__symbolTable[139] = bindSymbol(co, intern("macroexpand"));
+__symbolTable[140] = bindSymbol(co, intern("quote"));
+__symbolTable[141] = bindSymbol(co, intern("lambda"));
+__symbolTable[142] = bindSymbol(co, intern("cora/init#macroexpand-boot"));
+__symbolTable[143] = bindSymbol(co, intern("cora/init#macroexpand1"));
+__symbolTable[144] = bindSymbol(co, intern("cora/init#macroexpand1-h"));
+__symbolTable[145] = bindSymbol(co, intern("cora/init#add-to-*macros*"));
+__symbolTable[146] = bindSymbol(co, intern("*protect-symbol*"));
+__symbolTable[147] = bindSymbol(co, intern("*macros*"));
+__symbolTable[148] = bindSymbol(co, intern("map"));
+__symbolTable[149] = bindSymbol(co, intern("map-h"));
+__symbolTable[150] = bindSymbol(co, intern("reverse"));
+__symbolTable[151] = bindSymbol(co, intern("cora/init#reverse-h"));
+__symbolTable[152] = bindSymbol(co, intern("pair?"));
+__symbolTable[153] = bindSymbol(co, intern("cons"));
+__symbolTable[154] = bindSymbol(co, intern("rcons"));
+__symbolTable[155] = bindSymbol(co, intern("cdddr"));
+__symbolTable[156] = bindSymbol(co, intern("cadddr"));
+__symbolTable[157] = bindSymbol(co, intern("caddr"));
+__symbolTable[158] = bindSymbol(co, intern("cddr"));
+__symbolTable[159] = bindSymbol(co, intern("cdar"));
+__symbolTable[160] = bindSymbol(co, intern("caar"));
+__symbolTable[161] = bindSymbol(co, intern("cadr"));
+__symbolTable[162] = bindSymbol(co, intern("null?"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun95;
+co->ctx.fn = clofun100;
 co->ctx.label = 0;
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513212_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3513215_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3513218_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3513221_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3513224_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3513228_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3513233_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3513237_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3513245_37 = primSet(co, getBinding(co, packageID, 153).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3513247_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3513252_37 = primSet(co, getBinding(co, packageID, 150).name, makeNative(co->gc, 3, clofun10, 2, 0));
-saveCont(co, clofun95, 15, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), Nil);
+Obj v__3513217_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3513220_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3513223_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3513226_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3513229_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3513233_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3513238_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3513242_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3513250_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3513252_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3513257_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+saveCont(co, clofun100, 15, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3513732_37= co->res;
-Obj v__3513738_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun80, 2, 0));
-Obj v__3513750_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun81, 3, 0));
-Obj v__3513751_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3513752_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513751_37);
-Obj v__3513753_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513752_37);
-Obj v__3513754_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3513755_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513754_37);
-Obj v__3513756_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513755_37);
-Obj v__3513757_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3513758_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513757_37);
-Obj v__3513759_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513758_37);
-Obj v__3513760_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3513761_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513760_37);
-Obj v__3513762_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513761_37);
-Obj v__3513763_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3513764_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513763_37);
-Obj v__3513765_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513764_37);
-Obj v__3513766_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3513767_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513766_37);
-Obj v__3513768_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513767_37);
-Obj v__3513769_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3513770_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513769_37);
-Obj v__3513771_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513770_37);
-Obj v__3513772_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3513744_37= co->res;
+Obj v__3513750_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
+Obj v__3513762_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
+Obj v__3513763_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3513764_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513763_37);
+Obj v__3513765_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513764_37);
+Obj v__3513766_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3513767_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513766_37);
+Obj v__3513768_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513767_37);
+Obj v__3513769_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3513770_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513769_37);
+Obj v__3513771_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513770_37);
+Obj v__3513772_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
 Obj v__3513773_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513772_37);
-Obj v__3513774_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513773_37);
-Obj v__3513775_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3513776_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513775_37);
-Obj v__3513777_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513776_37);
-Obj v__3513778_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3513774_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513773_37);
+Obj v__3513775_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3513776_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513775_37);
+Obj v__3513777_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3513776_37);
+Obj v__3513778_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
 Obj v__3513779_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513778_37);
-Obj v__3513780_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513779_37);
-Obj v__3513781_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3513780_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513779_37);
+Obj v__3513781_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
 Obj v__3513782_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513781_37);
-Obj v__3513783_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513782_37);
-Obj v__3513784_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3513783_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513782_37);
+Obj v__3513784_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
 Obj v__3513785_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513784_37);
-Obj v__3513786_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513785_37);
-Obj v__3513787_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3513788_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513787_37);
-Obj v__3513789_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513788_37);
-Obj v__3513790_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3513791_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513790_37);
-Obj v__3513792_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513791_37);
-Obj v__3513793_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3513794_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513793_37);
-Obj v__3513795_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513794_37);
-Obj v__3513796_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3513797_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513796_37);
-Obj v__3513798_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513797_37);
-Obj v__3513799_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3513800_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513799_37);
-Obj v__3513801_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513800_37);
-Obj v__3513802_37 = makeCons(co->gc, v__3513801_37, Nil);
-Obj v__3513803_37 = makeCons(co->gc, v__3513798_37, v__3513802_37);
-Obj v__3513804_37 = makeCons(co->gc, v__3513795_37, v__3513803_37);
-Obj v__3513805_37 = makeCons(co->gc, v__3513792_37, v__3513804_37);
-Obj v__3513806_37 = makeCons(co->gc, v__3513789_37, v__3513805_37);
-Obj v__3513807_37 = makeCons(co->gc, v__3513786_37, v__3513806_37);
-Obj v__3513808_37 = makeCons(co->gc, v__3513783_37, v__3513807_37);
-Obj v__3513809_37 = makeCons(co->gc, v__3513780_37, v__3513808_37);
-Obj v__3513810_37 = makeCons(co->gc, v__3513777_37, v__3513809_37);
-Obj v__3513811_37 = makeCons(co->gc, v__3513774_37, v__3513810_37);
-Obj v__3513812_37 = makeCons(co->gc, v__3513771_37, v__3513811_37);
-Obj v__3513813_37 = makeCons(co->gc, v__3513768_37, v__3513812_37);
-Obj v__3513814_37 = makeCons(co->gc, v__3513765_37, v__3513813_37);
-Obj v__3513815_37 = makeCons(co->gc, v__3513762_37, v__3513814_37);
-Obj v__3513816_37 = makeCons(co->gc, v__3513759_37, v__3513815_37);
-Obj v__3513817_37 = makeCons(co->gc, v__3513756_37, v__3513816_37);
-Obj v__3513818_37 = makeCons(co->gc, v__3513753_37, v__3513817_37);
-Obj v__3513819_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513818_37);
-Obj v__3513834_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun83, 2, 0));
-Obj v__3513838_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun84, 1, 0));
-Obj v__3514016_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun94, 4, 0));
-Obj v__3514017_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3514018_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3514017_37);
-Obj v__3514019_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3514018_37);
-Obj v__3514020_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514019_37);
-Obj v__3514021_37 = makeCons(co->gc, getBinding(co, packageID, 138).name, v__3514020_37);
-Obj v__3514022_37 = makeCons(co->gc, getBinding(co, packageID, 147).name, v__3514021_37);
-Obj v__3514023_37 = makeCons(co->gc, getBinding(co, packageID, 149).name, v__3514022_37);
-Obj v__3514024_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3514023_37);
-Obj v__3514025_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3514024_37);
-Obj v__3514026_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3514025_37);
-Obj v__3514027_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514026_37);
-Obj v__3514028_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3514027_37);
-Obj v__3514029_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3514028_37);
-Obj v__3514030_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3514029_37);
-Obj v__3514031_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3514030_37);
-Obj v__3514032_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3514031_37);
-Obj v__3514033_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3514032_37);
-Obj v__3514034_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3514033_37);
-Obj v__3514035_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3514034_37);
-Obj v__3514036_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3514035_37);
-Obj v__3514037_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3514036_37);
-Obj v__3514038_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3514037_37);
-Obj v__3514039_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3514038_37);
-Obj v__3514040_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3514039_37);
-Obj v__3514041_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3514040_37);
-Obj v__3514042_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3514041_37);
-Obj v__3514043_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3514042_37);
-Obj v__3514044_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3514043_37);
-Obj v__3514045_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3514044_37);
-Obj v__3514046_37 = makeCons(co->gc, getBinding(co, packageID, 131).name, v__3514045_37);
-Obj v__3514047_37 = makeCons(co->gc, getBinding(co, packageID, 151).name, v__3514046_37);
-Obj v__3514048_37 = makeCons(co->gc, getBinding(co, packageID, 154).name, v__3514047_37);
-Obj v__3514049_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514048_37);
-Obj v__3514050_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514049_37);
-Obj v__3514051_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514050_37);
-Obj v__3514052_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514051_37);
-Obj v__3514053_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514052_37);
-Obj v__3514054_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514053_37);
-Obj v__3514055_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514054_37);
-Obj v__3514056_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3514057_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3514058_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3514059_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3514060_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3514061_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3514062_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 154)));
-Obj v__3514063_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 151)));
-Obj v__3514064_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 131)));
-Obj v__3514065_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 121)));
-Obj v__3514066_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3514067_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3514068_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3514069_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3514070_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3514071_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3514072_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3514073_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3514074_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3514075_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3514076_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3514077_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3514078_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3514079_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3514080_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3514081_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3514082_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3514083_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3514084_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3514085_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3514086_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3514087_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 149)));
-Obj v__3514088_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3514089_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 138)));
-Obj v__3514090_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3514091_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3514092_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3514093_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3514094_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3514094_37);
+Obj v__3513786_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513785_37);
+Obj v__3513787_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3513788_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513787_37);
+Obj v__3513789_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513788_37);
+Obj v__3513790_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3513791_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513790_37);
+Obj v__3513792_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513791_37);
+Obj v__3513793_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3513794_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513793_37);
+Obj v__3513795_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513794_37);
+Obj v__3513796_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3513797_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513796_37);
+Obj v__3513798_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513797_37);
+Obj v__3513799_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3513800_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513799_37);
+Obj v__3513801_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513800_37);
+Obj v__3513802_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3513803_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513802_37);
+Obj v__3513804_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513803_37);
+Obj v__3513805_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3513806_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513805_37);
+Obj v__3513807_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513806_37);
+Obj v__3513808_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3513809_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513808_37);
+Obj v__3513810_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513809_37);
+Obj v__3513811_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3513812_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513811_37);
+Obj v__3513813_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513812_37);
+Obj v__3513814_37 = makeCons(co->gc, v__3513813_37, Nil);
+Obj v__3513815_37 = makeCons(co->gc, v__3513810_37, v__3513814_37);
+Obj v__3513816_37 = makeCons(co->gc, v__3513807_37, v__3513815_37);
+Obj v__3513817_37 = makeCons(co->gc, v__3513804_37, v__3513816_37);
+Obj v__3513818_37 = makeCons(co->gc, v__3513801_37, v__3513817_37);
+Obj v__3513819_37 = makeCons(co->gc, v__3513798_37, v__3513818_37);
+Obj v__3513820_37 = makeCons(co->gc, v__3513795_37, v__3513819_37);
+Obj v__3513821_37 = makeCons(co->gc, v__3513792_37, v__3513820_37);
+Obj v__3513822_37 = makeCons(co->gc, v__3513789_37, v__3513821_37);
+Obj v__3513823_37 = makeCons(co->gc, v__3513786_37, v__3513822_37);
+Obj v__3513824_37 = makeCons(co->gc, v__3513783_37, v__3513823_37);
+Obj v__3513825_37 = makeCons(co->gc, v__3513780_37, v__3513824_37);
+Obj v__3513826_37 = makeCons(co->gc, v__3513777_37, v__3513825_37);
+Obj v__3513827_37 = makeCons(co->gc, v__3513774_37, v__3513826_37);
+Obj v__3513828_37 = makeCons(co->gc, v__3513771_37, v__3513827_37);
+Obj v__3513829_37 = makeCons(co->gc, v__3513768_37, v__3513828_37);
+Obj v__3513830_37 = makeCons(co->gc, v__3513765_37, v__3513829_37);
+Obj v__3513831_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513830_37);
+Obj v__3513846_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
+Obj v__3513850_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
+Obj v__3514028_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
+Obj v__3514029_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3514030_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3514029_37);
+Obj v__3514031_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3514030_37);
+Obj v__3514032_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514031_37);
+Obj v__3514033_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514032_37);
+Obj v__3514034_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3514033_37);
+Obj v__3514035_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3514034_37);
+Obj v__3514036_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3514035_37);
+Obj v__3514037_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3514036_37);
+Obj v__3514038_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3514037_37);
+Obj v__3514039_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514038_37);
+Obj v__3514040_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3514039_37);
+Obj v__3514041_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3514040_37);
+Obj v__3514042_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3514041_37);
+Obj v__3514043_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3514042_37);
+Obj v__3514044_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3514043_37);
+Obj v__3514045_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3514044_37);
+Obj v__3514046_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3514045_37);
+Obj v__3514047_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3514046_37);
+Obj v__3514048_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3514047_37);
+Obj v__3514049_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3514048_37);
+Obj v__3514050_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3514049_37);
+Obj v__3514051_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3514050_37);
+Obj v__3514052_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3514051_37);
+Obj v__3514053_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3514052_37);
+Obj v__3514054_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3514053_37);
+Obj v__3514055_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3514054_37);
+Obj v__3514056_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3514055_37);
+Obj v__3514057_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3514056_37);
+Obj v__3514058_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514057_37);
+Obj v__3514059_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3514058_37);
+Obj v__3514060_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514059_37);
+Obj v__3514061_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514060_37);
+Obj v__3514062_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514061_37);
+Obj v__3514063_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514062_37);
+Obj v__3514064_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514063_37);
+Obj v__3514065_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514064_37);
+Obj v__3514066_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3514065_37);
+Obj v__3514067_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514066_37);
+Obj v__3514068_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3514069_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3514070_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3514071_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3514072_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3514073_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3514074_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3514075_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj v__3514076_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3514077_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj v__3514078_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj v__3514079_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3514080_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3514081_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3514082_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3514083_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3514084_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3514085_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3514086_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3514087_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3514088_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3514089_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3514090_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3514091_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3514092_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3514093_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3514094_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3514095_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3514096_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3514097_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3514098_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3514099_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj v__3514100_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj v__3514101_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj v__3514102_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj v__3514103_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3514104_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3514105_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3514106_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3514106_37);
 return;
 }
 case 2:
 {
-Obj v__3513682_37= co->res;
-Obj v__3513711_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun75, 4, 0));
-Obj v__3513712_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun76, 2, 0));
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun79, 1, 0));
+Obj v__3513694_37= co->res;
+Obj v__3513723_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
+Obj v__3513724_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
+saveCont(co, clofun100, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun84, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3513665_37= co->res;
-Obj v__3513679_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun71, 2, 0));
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun72, 1, 0));
+Obj v__3513677_37= co->res;
+Obj v__3513691_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
+saveCont(co, clofun100, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun77, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3513643_37= co->res;
-Obj v__3513663_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun69, 1, 0));
-saveCont(co, clofun95, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun70, 1, 0));
+Obj v__3513655_37= co->res;
+Obj v__3513675_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
+saveCont(co, clofun100, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun75, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3513612_37= co->res;
-Obj v__3513613_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun61, 1, 0));
-Obj v__3513614_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun62, 1, 0));
-Obj v__3513617_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3513641_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun66, 1, 0));
-saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v__3513624_37= co->res;
+Obj v__3513625_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3513626_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v__3513629_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
+Obj v__3513653_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
+saveCont(co, clofun100, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3513504_37= co->res;
-Obj v__3513556_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun48, 3, 0));
-Obj v__3513557_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun49, 1, 0));
-Obj v__3513562_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun50, 2, 0));
-Obj v__3513566_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun51, 2, 0));
-Obj v__3513567_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun52, 1, 0));
-Obj v__3513575_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun53, 3, 0));
-Obj v__3513576_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun54, 2, 0));
-Obj v__3513582_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3513593_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun58, 1, 0));
-Obj v__3513599_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun59, 1, 0));
-saveCont(co, clofun95, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 95).name, makeNative(co->gc, 3, clofun60, 1, 0));
+Obj v__3513517_37= co->res;
+Obj v__3513569_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
+Obj v__3513570_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
+Obj v__3513575_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3513579_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3513580_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
+Obj v__3513588_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj v__3513589_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3513595_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
+Obj v__3513606_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3513612_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
+saveCont(co, clofun100, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun65, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3513399_37= co->res;
-Obj v__3513421_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3513454_37 = primSet(co, getBinding(co, packageID, 117).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3513467_37 = primSet(co, getBinding(co, packageID, 111).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3513489_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3513503_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun44, 1, 0));
-saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun45, 1, 0));
+Obj v__3513404_37= co->res;
+Obj v__3513426_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3513459_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3513472_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3513494_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3513512_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
+Obj v__3513516_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
+saveCont(co, clofun100, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun50, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3513384_37= co->res;
-Obj v__3513387_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3513397_37 = primSet(co, getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun33, 1, 0));
-saveCont(co, clofun95, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 119).name, makeNative(co->gc, 2, clofun34, 1, 0));
+Obj v__3513389_37= co->res;
+Obj v__3513392_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3513402_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+saveCont(co, clofun100, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3513370_37= co->res;
-Obj v__3513382_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun30, 1, 0));
-saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun31, 1, 0));
+Obj v__3513375_37= co->res;
+Obj v__3513387_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+saveCont(co, clofun100, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3513356_37= co->res;
-Obj v__3513368_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun28, 1, 0));
-saveCont(co, clofun95, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun29, 1, 0));
+Obj v__3513361_37= co->res;
+Obj v__3513373_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+saveCont(co, clofun100, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3513342_37= co->res;
-saveCont(co, clofun95, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun27, 1, 0));
+Obj v__3513347_37= co->res;
+saveCont(co, clofun100, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3513320_37= co->res;
-Obj v__3513325_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3513328_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3513340_37 = primSet(co, getBinding(co, packageID, 130).name, makeNative(co->gc, 3, clofun25, 1, 0));
-saveCont(co, clofun95, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 129).name, makeNative(co->gc, 2, clofun26, 1, 0));
+Obj v__3513325_37= co->res;
+Obj v__3513330_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3513333_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3513345_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+saveCont(co, clofun100, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3513310_37= co->res;
-saveCont(co, clofun95, 12, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 134).name, makeNative(co->gc, 3, clofun22, 1, 0));
+Obj v__3513315_37= co->res;
+saveCont(co, clofun100, 12, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3513308_37= co->res;
-saveCont(co, clofun95, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 135).name, makeNative(co->gc, 2, clofun21, 1, 0));
+Obj v__3513313_37= co->res;
+saveCont(co, clofun100, 13, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3513253_37= co->res;
-Obj v__3513254_37 = primSet(co, getBinding(co, packageID, 149).name, v__3513253_37);
-Obj v__3513260_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3513261_37 = primSet(co, getBinding(co, packageID, 147).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3513262_37 = primSet(co, getBinding(co, packageID, 146).name, Nil);
-Obj v__3513263_37 = primGenSym(co);
-Obj v__3513264_37 = primSet(co, getBinding(co, packageID, 145).name, v__3513263_37);
-Obj v__3513268_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3513277_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3513278_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3513295_37 = primSet(co, getBinding(co, packageID, 141).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3513296_37 = primSet(co, getBinding(co, packageID, 138).name, globalRef(co, getBinding(co, packageID, 141)));
-Obj v__3513307_37 = primSet(co, getBinding(co, packageID, 137).name, makeNative(co->gc, 3, clofun20, 1, 0));
-saveCont(co, clofun95, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), getBinding(co, packageID, 136).name, globalRef(co, getBinding(co, packageID, 137)));
+Obj v__3513258_37= co->res;
+Obj v__3513259_37 = primSet(co, getBinding(co, packageID, 150).name, v__3513258_37);
+Obj v__3513265_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3513266_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3513267_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj v__3513268_37 = primGenSym(co);
+Obj v__3513269_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513268_37);
+Obj v__3513273_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3513282_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3513283_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3513300_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3513301_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj v__3513312_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+saveCont(co, clofun100, 14, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
 }
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513095_37 = R[1];
-Obj v__3513096_37 = R[2];
-Obj v__3513097_37 = R[3];
-Obj v__3513098_37 = R[4];
-Obj v__3513184_37 = makeNative(co->gc, 2, clofun93, 1, 4, v__3513095_37, v__3513096_37, v__3513097_37, v__3513098_37);
-R[1] = v__3513098_37;
-R[2] = v__3513184_37;
-saveCont(co, clofun94, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513098_37);
+Obj v__3513098_37 = R[1];
+Obj v__3513099_37 = R[2];
+Obj v__3513100_37 = R[3];
+Obj v__3513101_37 = R[4];
+Obj v__3513189_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3513098_37, v__3513099_37, v__3513100_37, v__3513101_37);
+R[1] = v__3513101_37;
+R[2] = v__3513189_37;
+saveCont(co, clofun99, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513101_37);
 return;
 }
 case 1:
 {
-Obj v__3514015_37= co->res;
-Obj v__3513184_37 = R[1];
-if (True == v__3514015_37) {
+Obj v__3514027_37= co->res;
+Obj v__3513189_37 = R[1];
+if (True == v__3514027_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, True);
+coraCall1(co, v__3513189_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, False);
+coraCall1(co, v__3513189_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514014_37= co->res;
-Obj v__3513098_37 = R[1];
-Obj v__3513184_37 = R[2];
-if (True == v__3514014_37) {
+Obj v__3514026_37= co->res;
+Obj v__3513101_37 = R[1];
+Obj v__3513189_37 = R[2];
+if (True == v__3514026_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, True);
+coraCall1(co, v__3513189_37, True);
 return;
 } else {
-R[1] = v__3513184_37;
-saveCont(co, clofun94, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513098_37);
+R[1] = v__3513189_37;
+saveCont(co, clofun99, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513101_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3514012_37= co->res;
-Obj v__3513098_37 = R[1];
-Obj v__3513184_37 = R[2];
-if (True == v__3514012_37) {
+Obj v__3514024_37= co->res;
+Obj v__3513101_37 = R[1];
+Obj v__3513189_37 = R[2];
+if (True == v__3514024_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, True);
+coraCall1(co, v__3513189_37, True);
 return;
 } else {
-Obj v__3514013_37 = primIsString(v__3513098_37);
-if (True == v__3514013_37) {
+Obj v__3514025_37 = primIsString(v__3513101_37);
+if (True == v__3514025_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513184_37, True);
+coraCall1(co, v__3513189_37, True);
 return;
 } else {
-R[1] = v__3513098_37;
-R[2] = v__3513184_37;
-saveCont(co, clofun94, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513098_37);
+R[1] = v__3513101_37;
+R[2] = v__3513189_37;
+saveCont(co, clofun99, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3513101_37);
 return;
 }
 }
@@ -663,53 +670,53 @@ return;
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513183_37 = R[1];
-if (True == v__3513183_37) {
+Obj v__3513188_37 = R[1];
+if (True == v__3513188_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3513185_37 = makeNative(co->gc, 3, clofun92, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3514000_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3514000_37) {
-Obj v__3514001_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3514002_37 = PRIM_EQ(getBinding(co, packageID, 139).name, v__3514001_37);
-if (True == v__3514002_37) {
-Obj v__3514003_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514004_37 = PRIM_ISCONS(v__3514003_37);
-if (True == v__3514004_37) {
-Obj v__3514005_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514006_37 = PRIM_CAR(v__3514005_37);
-Obj v__3513210_37 = v__3514006_37;
-Obj v__3514007_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514008_37 = PRIM_CDR(v__3514007_37);
-Obj v__3514009_37 = PRIM_EQ(Nil, v__3514008_37);
-if (True == v__3514009_37) {
-Obj v__3514010_37 = makeCons(co->gc, v__3513210_37, Nil);
-Obj v__3514011_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514010_37);
-coraReturn(co, v__3514011_37);
+Obj v__3513190_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3514012_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3514012_37) {
+Obj v__3514013_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3514014_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3514013_37);
+if (True == v__3514014_37) {
+Obj v__3514015_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514016_37 = PRIM_ISCONS(v__3514015_37);
+if (True == v__3514016_37) {
+Obj v__3514017_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514018_37 = PRIM_CAR(v__3514017_37);
+Obj v__3513215_37 = v__3514018_37;
+Obj v__3514019_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3514020_37 = PRIM_CDR(v__3514019_37);
+Obj v__3514021_37 = PRIM_EQ(Nil, v__3514020_37);
+if (True == v__3514021_37) {
+Obj v__3514022_37 = makeCons(co->gc, v__3513215_37, Nil);
+Obj v__3514023_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514022_37);
+coraReturn(co, v__3514023_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513185_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513185_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513185_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513185_37);
+coraCall0(co, v__3513190_37);
 return;
 }
 }
@@ -717,77 +724,77 @@ return;
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513839_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3513839_37) {
-saveCont(co, clofun92, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513851_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3513851_37) {
+saveCont(co, clofun97, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513186_37 = makeNative(co->gc, 3, clofun91, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513978_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513978_37) {
-Obj v__3513979_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513980_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3513979_37);
-if (True == v__3513980_37) {
-Obj v__3513981_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513982_37 = PRIM_ISCONS(v__3513981_37);
-if (True == v__3513982_37) {
-Obj v__3513983_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513984_37 = PRIM_CAR(v__3513983_37);
-Obj v__3513208_37 = v__3513984_37;
-Obj v__3513985_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513986_37 = PRIM_CDR(v__3513985_37);
-Obj v__3513987_37 = PRIM_ISCONS(v__3513986_37);
-if (True == v__3513987_37) {
-Obj v__3513988_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513989_37 = PRIM_CDR(v__3513988_37);
-Obj v__3513990_37 = PRIM_CAR(v__3513989_37);
-Obj v__3513209_37 = v__3513990_37;
-Obj v__3513991_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513992_37 = PRIM_CDR(v__3513991_37);
-Obj v__3513993_37 = PRIM_CDR(v__3513992_37);
-Obj v__3513994_37 = PRIM_EQ(Nil, v__3513993_37);
+Obj v__3513191_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513990_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513990_37) {
+Obj v__3513991_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513992_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3513991_37);
+if (True == v__3513992_37) {
+Obj v__3513993_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513994_37 = PRIM_ISCONS(v__3513993_37);
 if (True == v__3513994_37) {
-R[1] = v__3513209_37;
-R[2] = v__3513208_37;
-saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513208_37, closureRef(R[0], 1));
+Obj v__3513995_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513996_37 = PRIM_CAR(v__3513995_37);
+Obj v__3513213_37 = v__3513996_37;
+Obj v__3513997_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513998_37 = PRIM_CDR(v__3513997_37);
+Obj v__3513999_37 = PRIM_ISCONS(v__3513998_37);
+if (True == v__3513999_37) {
+Obj v__3514000_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514001_37 = PRIM_CDR(v__3514000_37);
+Obj v__3514002_37 = PRIM_CAR(v__3514001_37);
+Obj v__3513214_37 = v__3514002_37;
+Obj v__3514003_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514004_37 = PRIM_CDR(v__3514003_37);
+Obj v__3514005_37 = PRIM_CDR(v__3514004_37);
+Obj v__3514006_37 = PRIM_EQ(Nil, v__3514005_37);
+if (True == v__3514006_37) {
+R[1] = v__3513214_37;
+R[2] = v__3513213_37;
+saveCont(co, clofun97, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513213_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513186_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513186_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513186_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513186_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513186_37);
+coraCall0(co, v__3513191_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513841_37= co->res;
-if (True == v__3513841_37) {
+Obj v__3513853_37= co->res;
+if (True == v__3513853_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -798,219 +805,219 @@ return;
 }
 case 2:
 {
-Obj v__3513840_37= co->res;
-if (True == v__3513840_37) {
+Obj v__3513852_37= co->res;
+if (True == v__3513852_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun92, 1, R);
+saveCont(co, clofun97, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 55)), closureRef(R[0], 0));
 return;
 }
 }
 case 3:
 {
-Obj v__3513996_37= co->res;
-Obj v__3513208_37 = R[1];
-Obj v__3513997_37 = makeCons(co->gc, v__3513996_37, Nil);
-Obj v__3513998_37 = makeCons(co->gc, v__3513208_37, v__3513997_37);
-Obj v__3513999_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513998_37);
-coraReturn(co, v__3513999_37);
+Obj v__3514008_37= co->res;
+Obj v__3513213_37 = R[1];
+Obj v__3514009_37 = makeCons(co->gc, v__3514008_37, Nil);
+Obj v__3514010_37 = makeCons(co->gc, v__3513213_37, v__3514009_37);
+Obj v__3514011_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514010_37);
+coraReturn(co, v__3514011_37);
 return;
 }
 case 4:
 {
-Obj v__3513995_37= co->res;
-Obj v__3513209_37 = R[1];
-Obj v__3513208_37 = R[2];
-R[1] = v__3513208_37;
-saveCont(co, clofun92, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513995_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513209_37);
+Obj v__3514007_37= co->res;
+Obj v__3513214_37 = R[1];
+Obj v__3513213_37 = R[2];
+R[1] = v__3513213_37;
+saveCont(co, clofun97, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3514007_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513214_37);
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513187_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513934_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513934_37) {
-Obj v__3513935_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513936_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513935_37);
-if (True == v__3513936_37) {
-Obj v__3513937_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513938_37 = PRIM_ISCONS(v__3513937_37);
-if (True == v__3513938_37) {
-Obj v__3513939_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513940_37 = PRIM_CAR(v__3513939_37);
-Obj v__3513941_37 = PRIM_ISCONS(v__3513940_37);
-if (True == v__3513941_37) {
-Obj v__3513942_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513943_37 = PRIM_CAR(v__3513942_37);
-Obj v__3513944_37 = PRIM_CAR(v__3513943_37);
-Obj v__3513945_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513944_37);
-if (True == v__3513945_37) {
-Obj v__3513946_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513947_37 = PRIM_CAR(v__3513946_37);
-Obj v__3513948_37 = PRIM_CDR(v__3513947_37);
-Obj v__3513949_37 = PRIM_ISCONS(v__3513948_37);
-if (True == v__3513949_37) {
-Obj v__3513950_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513951_37 = PRIM_CAR(v__3513950_37);
-Obj v__3513952_37 = PRIM_CDR(v__3513951_37);
-Obj v__3513953_37 = PRIM_CAR(v__3513952_37);
-Obj v__3513206_37 = v__3513953_37;
+Obj v__3513192_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513946_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513946_37) {
+Obj v__3513947_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513948_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513947_37);
+if (True == v__3513948_37) {
+Obj v__3513949_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513950_37 = PRIM_ISCONS(v__3513949_37);
+if (True == v__3513950_37) {
+Obj v__3513951_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513952_37 = PRIM_CAR(v__3513951_37);
+Obj v__3513953_37 = PRIM_ISCONS(v__3513952_37);
+if (True == v__3513953_37) {
 Obj v__3513954_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3513955_37 = PRIM_CAR(v__3513954_37);
-Obj v__3513956_37 = PRIM_CDR(v__3513955_37);
-Obj v__3513957_37 = PRIM_CDR(v__3513956_37);
-Obj v__3513958_37 = PRIM_EQ(Nil, v__3513957_37);
-if (True == v__3513958_37) {
-Obj v__3513959_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513956_37 = PRIM_CAR(v__3513955_37);
+Obj v__3513957_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513956_37);
+if (True == v__3513957_37) {
+Obj v__3513958_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513959_37 = PRIM_CAR(v__3513958_37);
 Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
 Obj v__3513961_37 = PRIM_ISCONS(v__3513960_37);
 if (True == v__3513961_37) {
 Obj v__3513962_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513963_37 = PRIM_CDR(v__3513962_37);
-Obj v__3513964_37 = PRIM_CAR(v__3513963_37);
-Obj v__3513207_37 = v__3513964_37;
-Obj v__3513965_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513966_37 = PRIM_CDR(v__3513965_37);
-Obj v__3513967_37 = PRIM_CDR(v__3513966_37);
-Obj v__3513968_37 = PRIM_EQ(Nil, v__3513967_37);
-if (True == v__3513968_37) {
-Obj v__3513969_37 = primIsString(v__3513206_37);
-if (True == v__3513969_37) {
-Obj v__3513970_37 = makeCons(co->gc, v__3513206_37, Nil);
-Obj v__3513971_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513970_37);
-R[1] = v__3513206_37;
-R[2] = v__3513207_37;
-saveCont(co, clofun91, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513971_37);
+Obj v__3513963_37 = PRIM_CAR(v__3513962_37);
+Obj v__3513964_37 = PRIM_CDR(v__3513963_37);
+Obj v__3513965_37 = PRIM_CAR(v__3513964_37);
+Obj v__3513211_37 = v__3513965_37;
+Obj v__3513966_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513967_37 = PRIM_CAR(v__3513966_37);
+Obj v__3513968_37 = PRIM_CDR(v__3513967_37);
+Obj v__3513969_37 = PRIM_CDR(v__3513968_37);
+Obj v__3513970_37 = PRIM_EQ(Nil, v__3513969_37);
+if (True == v__3513970_37) {
+Obj v__3513971_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513972_37 = PRIM_CDR(v__3513971_37);
+Obj v__3513973_37 = PRIM_ISCONS(v__3513972_37);
+if (True == v__3513973_37) {
+Obj v__3513974_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513975_37 = PRIM_CDR(v__3513974_37);
+Obj v__3513976_37 = PRIM_CAR(v__3513975_37);
+Obj v__3513212_37 = v__3513976_37;
+Obj v__3513977_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513978_37 = PRIM_CDR(v__3513977_37);
+Obj v__3513979_37 = PRIM_CDR(v__3513978_37);
+Obj v__3513980_37 = PRIM_EQ(Nil, v__3513979_37);
+if (True == v__3513980_37) {
+Obj v__3513981_37 = primIsString(v__3513211_37);
+if (True == v__3513981_37) {
+Obj v__3513982_37 = makeCons(co->gc, v__3513211_37, Nil);
+Obj v__3513983_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513982_37);
+R[1] = v__3513211_37;
+R[2] = v__3513212_37;
+saveCont(co, clofun96, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513983_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513187_37);
+coraCall0(co, v__3513192_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513974_37= co->res;
-Obj v__3513972_37 = R[1];
-Obj v__3513975_37 = makeCons(co->gc, v__3513974_37, Nil);
-Obj v__3513976_37 = makeCons(co->gc, v__3513972_37, v__3513975_37);
-Obj v__3513977_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513976_37);
-coraReturn(co, v__3513977_37);
+Obj v__3513986_37= co->res;
+Obj v__3513984_37 = R[1];
+Obj v__3513987_37 = makeCons(co->gc, v__3513986_37, Nil);
+Obj v__3513988_37 = makeCons(co->gc, v__3513984_37, v__3513987_37);
+Obj v__3513989_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513988_37);
+coraReturn(co, v__3513989_37);
 return;
 }
 case 2:
 {
-Obj v__3513972_37= co->res;
-Obj v__3513206_37 = R[1];
-Obj v__3513207_37 = R[2];
-Obj v__3513973_37 = makeCons(co->gc, v__3513206_37, closureRef(R[0], 3));
-R[1] = v__3513972_37;
-saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513973_37, v__3513207_37);
+Obj v__3513984_37= co->res;
+Obj v__3513211_37 = R[1];
+Obj v__3513212_37 = R[2];
+Obj v__3513985_37 = makeCons(co->gc, v__3513211_37, closureRef(R[0], 3));
+R[1] = v__3513984_37;
+saveCont(co, clofun96, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513985_37, v__3513212_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513188_37 = makeNative(co->gc, 3, clofun88, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513926_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513926_37) {
-Obj v__3513927_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513201_37 = v__3513927_37;
-Obj v__3513928_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513202_37 = v__3513928_37;
-Obj v__3513205_37 = makeNative(co->gc, 2, clofun89, 1, 6, v__3513201_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513202_37, v__3513188_37);
-Obj v__3513932_37 = PRIM_EQ(v__3513201_37, getBinding(co, packageID, 126).name);
-if (True == v__3513932_37) {
+Obj v__3513193_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3513938_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513938_37) {
+Obj v__3513939_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513206_37 = v__3513939_37;
+Obj v__3513940_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513207_37 = v__3513940_37;
+Obj v__3513210_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3513206_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513207_37, v__3513193_37);
+Obj v__3513944_37 = PRIM_EQ(v__3513206_37, getBinding(co, packageID, 127).name);
+if (True == v__3513944_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513205_37, True);
+coraCall1(co, v__3513210_37, True);
 return;
 } else {
-Obj v__3513933_37 = PRIM_EQ(v__3513201_37, getBinding(co, packageID, 90).name);
-if (True == v__3513933_37) {
+Obj v__3513945_37 = PRIM_EQ(v__3513206_37, getBinding(co, packageID, 90).name);
+if (True == v__3513945_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513205_37, True);
+coraCall1(co, v__3513210_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513205_37, False);
+coraCall1(co, v__3513210_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513188_37);
+coraCall0(co, v__3513193_37);
 return;
 }
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513204_37 = R[1];
-if (True == v__3513204_37) {
-saveCont(co, clofun89, 2, R);
+Obj v__3513209_37 = R[1];
+if (True == v__3513209_37) {
+saveCont(co, clofun94, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
@@ -1021,371 +1028,371 @@ return;
 }
 case 1:
 {
-Obj v__3513930_37= co->res;
-Obj v__3513931_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513930_37);
-coraReturn(co, v__3513931_37);
+Obj v__3513942_37= co->res;
+Obj v__3513943_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513942_37);
+coraReturn(co, v__3513943_37);
 return;
 }
 case 2:
 {
-Obj v__3513929_37= co->res;
-saveCont(co, clofun89, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513929_37, closureRef(R[0], 4));
+Obj v__3513941_37= co->res;
+saveCont(co, clofun94, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3513941_37, closureRef(R[0], 4));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513189_37 = makeNative(co->gc, 1, clofun87, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513893_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513893_37) {
-Obj v__3513894_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513895_37 = PRIM_EQ(getBinding(co, packageID, 129).name, v__3513894_37);
-if (True == v__3513895_37) {
-Obj v__3513896_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513897_37 = PRIM_ISCONS(v__3513896_37);
-if (True == v__3513897_37) {
-Obj v__3513898_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513899_37 = PRIM_CAR(v__3513898_37);
-Obj v__3513198_37 = v__3513899_37;
-Obj v__3513900_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513901_37 = PRIM_CDR(v__3513900_37);
-Obj v__3513902_37 = PRIM_ISCONS(v__3513901_37);
-if (True == v__3513902_37) {
-Obj v__3513903_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513904_37 = PRIM_CDR(v__3513903_37);
-Obj v__3513905_37 = PRIM_CAR(v__3513904_37);
-Obj v__3513199_37 = v__3513905_37;
-Obj v__3513906_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513907_37 = PRIM_CDR(v__3513906_37);
-Obj v__3513908_37 = PRIM_CDR(v__3513907_37);
+Obj v__3513194_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513905_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513905_37) {
+Obj v__3513906_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513907_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3513906_37);
+if (True == v__3513907_37) {
+Obj v__3513908_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3513909_37 = PRIM_ISCONS(v__3513908_37);
 if (True == v__3513909_37) {
 Obj v__3513910_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513911_37 = PRIM_CDR(v__3513910_37);
-Obj v__3513912_37 = PRIM_CDR(v__3513911_37);
-Obj v__3513913_37 = PRIM_CAR(v__3513912_37);
-Obj v__3513200_37 = v__3513913_37;
-Obj v__3513914_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513915_37 = PRIM_CDR(v__3513914_37);
+Obj v__3513911_37 = PRIM_CAR(v__3513910_37);
+Obj v__3513203_37 = v__3513911_37;
+Obj v__3513912_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513913_37 = PRIM_CDR(v__3513912_37);
+Obj v__3513914_37 = PRIM_ISCONS(v__3513913_37);
+if (True == v__3513914_37) {
+Obj v__3513915_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3513916_37 = PRIM_CDR(v__3513915_37);
-Obj v__3513917_37 = PRIM_CDR(v__3513916_37);
-Obj v__3513918_37 = PRIM_EQ(Nil, v__3513917_37);
-if (True == v__3513918_37) {
-R[1] = v__3513200_37;
-R[2] = v__3513198_37;
-saveCont(co, clofun88, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513199_37);
+Obj v__3513917_37 = PRIM_CAR(v__3513916_37);
+Obj v__3513204_37 = v__3513917_37;
+Obj v__3513918_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513919_37 = PRIM_CDR(v__3513918_37);
+Obj v__3513920_37 = PRIM_CDR(v__3513919_37);
+Obj v__3513921_37 = PRIM_ISCONS(v__3513920_37);
+if (True == v__3513921_37) {
+Obj v__3513922_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513923_37 = PRIM_CDR(v__3513922_37);
+Obj v__3513924_37 = PRIM_CDR(v__3513923_37);
+Obj v__3513925_37 = PRIM_CAR(v__3513924_37);
+Obj v__3513205_37 = v__3513925_37;
+Obj v__3513926_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513927_37 = PRIM_CDR(v__3513926_37);
+Obj v__3513928_37 = PRIM_CDR(v__3513927_37);
+Obj v__3513929_37 = PRIM_CDR(v__3513928_37);
+Obj v__3513930_37 = PRIM_EQ(Nil, v__3513929_37);
+if (True == v__3513930_37) {
+R[1] = v__3513205_37;
+R[2] = v__3513203_37;
+saveCont(co, clofun93, 2, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513204_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513189_37);
+coraCall0(co, v__3513194_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513189_37);
+coraCall0(co, v__3513194_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513189_37);
+coraCall0(co, v__3513194_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513189_37);
+coraCall0(co, v__3513194_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513189_37);
+coraCall0(co, v__3513194_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513189_37);
+coraCall0(co, v__3513194_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513921_37= co->res;
-Obj v__3513919_37 = R[1];
-Obj v__3513198_37 = R[2];
-Obj v__3513922_37 = makeCons(co->gc, v__3513921_37, Nil);
-Obj v__3513923_37 = makeCons(co->gc, v__3513919_37, v__3513922_37);
-Obj v__3513924_37 = makeCons(co->gc, v__3513198_37, v__3513923_37);
-Obj v__3513925_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513924_37);
-coraReturn(co, v__3513925_37);
+Obj v__3513933_37= co->res;
+Obj v__3513931_37 = R[1];
+Obj v__3513203_37 = R[2];
+Obj v__3513934_37 = makeCons(co->gc, v__3513933_37, Nil);
+Obj v__3513935_37 = makeCons(co->gc, v__3513931_37, v__3513934_37);
+Obj v__3513936_37 = makeCons(co->gc, v__3513203_37, v__3513935_37);
+Obj v__3513937_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513936_37);
+coraReturn(co, v__3513937_37);
 return;
 }
 case 2:
 {
-Obj v__3513919_37= co->res;
-Obj v__3513200_37 = R[1];
-Obj v__3513198_37 = R[2];
-Obj v__3513920_37 = makeCons(co->gc, v__3513198_37, closureRef(R[0], 1));
-R[1] = v__3513919_37;
-R[2] = v__3513198_37;
-saveCont(co, clofun88, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513920_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513200_37);
+Obj v__3513931_37= co->res;
+Obj v__3513205_37 = R[1];
+Obj v__3513203_37 = R[2];
+Obj v__3513932_37 = makeCons(co->gc, v__3513203_37, closureRef(R[0], 1));
+R[1] = v__3513931_37;
+R[2] = v__3513203_37;
+saveCont(co, clofun93, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513932_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513205_37);
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513190_37 = makeNative(co->gc, 2, clofun86, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513867_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3513867_37) {
-Obj v__3513868_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3513869_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513868_37);
-if (True == v__3513869_37) {
-Obj v__3513870_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513871_37 = PRIM_ISCONS(v__3513870_37);
-if (True == v__3513871_37) {
-Obj v__3513872_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513873_37 = PRIM_CAR(v__3513872_37);
-Obj v__3513195_37 = v__3513873_37;
-Obj v__3513874_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513875_37 = PRIM_CDR(v__3513874_37);
-Obj v__3513876_37 = PRIM_ISCONS(v__3513875_37);
-if (True == v__3513876_37) {
-Obj v__3513877_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513878_37 = PRIM_CDR(v__3513877_37);
-Obj v__3513879_37 = PRIM_CAR(v__3513878_37);
-Obj v__3513196_37 = v__3513879_37;
-Obj v__3513880_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513881_37 = PRIM_CDR(v__3513880_37);
-Obj v__3513882_37 = PRIM_CDR(v__3513881_37);
+Obj v__3513195_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513879_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3513879_37) {
+Obj v__3513880_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3513881_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513880_37);
+if (True == v__3513881_37) {
+Obj v__3513882_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj v__3513883_37 = PRIM_ISCONS(v__3513882_37);
 if (True == v__3513883_37) {
 Obj v__3513884_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513885_37 = PRIM_CDR(v__3513884_37);
-Obj v__3513886_37 = PRIM_CDR(v__3513885_37);
-Obj v__3513887_37 = PRIM_CAR(v__3513886_37);
-Obj v__3513197_37 = v__3513887_37;
-Obj v__3513888_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513889_37 = PRIM_CDR(v__3513888_37);
+Obj v__3513885_37 = PRIM_CAR(v__3513884_37);
+Obj v__3513200_37 = v__3513885_37;
+Obj v__3513886_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513887_37 = PRIM_CDR(v__3513886_37);
+Obj v__3513888_37 = PRIM_ISCONS(v__3513887_37);
+if (True == v__3513888_37) {
+Obj v__3513889_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj v__3513890_37 = PRIM_CDR(v__3513889_37);
-Obj v__3513891_37 = PRIM_CDR(v__3513890_37);
-Obj v__3513892_37 = PRIM_EQ(Nil, v__3513891_37);
-if (True == v__3513892_37) {
+Obj v__3513891_37 = PRIM_CAR(v__3513890_37);
+Obj v__3513201_37 = v__3513891_37;
+Obj v__3513892_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513893_37 = PRIM_CDR(v__3513892_37);
+Obj v__3513894_37 = PRIM_CDR(v__3513893_37);
+Obj v__3513895_37 = PRIM_ISCONS(v__3513894_37);
+if (True == v__3513895_37) {
+Obj v__3513896_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513897_37 = PRIM_CDR(v__3513896_37);
+Obj v__3513898_37 = PRIM_CDR(v__3513897_37);
+Obj v__3513899_37 = PRIM_CAR(v__3513898_37);
+Obj v__3513202_37 = v__3513899_37;
+Obj v__3513900_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513901_37 = PRIM_CDR(v__3513900_37);
+Obj v__3513902_37 = PRIM_CDR(v__3513901_37);
+Obj v__3513903_37 = PRIM_CDR(v__3513902_37);
+Obj v__3513904_37 = PRIM_EQ(Nil, v__3513903_37);
+if (True == v__3513904_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513195_37, v__3513196_37, v__3513197_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513200_37, v__3513201_37, v__3513202_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3513195_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3513195_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3513195_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3513195_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3513195_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3513195_37);
 return;
 }
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513191_37 = makeNative(co->gc, 1, clofun85, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3513843_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513843_37) {
-Obj v__3513844_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513845_37 = PRIM_EQ(getBinding(co, packageID, 133).name, v__3513844_37);
-if (True == v__3513845_37) {
-Obj v__3513846_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513847_37 = PRIM_ISCONS(v__3513846_37);
-if (True == v__3513847_37) {
-Obj v__3513848_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513849_37 = PRIM_CAR(v__3513848_37);
-Obj v__3513192_37 = v__3513849_37;
-Obj v__3513850_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513851_37 = PRIM_CDR(v__3513850_37);
-Obj v__3513852_37 = PRIM_ISCONS(v__3513851_37);
-if (True == v__3513852_37) {
-Obj v__3513853_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513854_37 = PRIM_CDR(v__3513853_37);
-Obj v__3513855_37 = PRIM_CAR(v__3513854_37);
-Obj v__3513193_37 = v__3513855_37;
-Obj v__3513856_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513857_37 = PRIM_CDR(v__3513856_37);
-Obj v__3513858_37 = PRIM_CDR(v__3513857_37);
-Obj v__3513859_37 = PRIM_EQ(Nil, v__3513858_37);
+Obj v__3513196_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3513855_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513855_37) {
+Obj v__3513856_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513857_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3513856_37);
+if (True == v__3513857_37) {
+Obj v__3513858_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513859_37 = PRIM_ISCONS(v__3513858_37);
 if (True == v__3513859_37) {
-R[1] = v__3513193_37;
-saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513192_37, closureRef(R[0], 2));
+Obj v__3513860_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513861_37 = PRIM_CAR(v__3513860_37);
+Obj v__3513197_37 = v__3513861_37;
+Obj v__3513862_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513863_37 = PRIM_CDR(v__3513862_37);
+Obj v__3513864_37 = PRIM_ISCONS(v__3513863_37);
+if (True == v__3513864_37) {
+Obj v__3513865_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513866_37 = PRIM_CDR(v__3513865_37);
+Obj v__3513867_37 = PRIM_CAR(v__3513866_37);
+Obj v__3513198_37 = v__3513867_37;
+Obj v__3513868_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513869_37 = PRIM_CDR(v__3513868_37);
+Obj v__3513870_37 = PRIM_CDR(v__3513869_37);
+Obj v__3513871_37 = PRIM_EQ(Nil, v__3513870_37);
+if (True == v__3513871_37) {
+R[1] = v__3513198_37;
+saveCont(co, clofun91, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513197_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3513196_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3513196_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3513196_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3513196_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3513196_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513863_37= co->res;
-Obj v__3513862_37 = R[1];
-Obj v__3513864_37 = makeCons(co->gc, v__3513863_37, Nil);
-Obj v__3513865_37 = makeCons(co->gc, v__3513862_37, v__3513864_37);
-Obj v__3513866_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513865_37);
-coraReturn(co, v__3513866_37);
+Obj v__3513875_37= co->res;
+Obj v__3513874_37 = R[1];
+Obj v__3513876_37 = makeCons(co->gc, v__3513875_37, Nil);
+Obj v__3513877_37 = makeCons(co->gc, v__3513874_37, v__3513876_37);
+Obj v__3513878_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513877_37);
+coraReturn(co, v__3513878_37);
 return;
 }
 case 2:
 {
-Obj v__3513860_37= co->res;
-Obj v__3513193_37 = R[1];
-Obj v__3513194_37 = v__3513860_37;
-Obj v__3513861_37 = makeCons(co->gc, v__3513194_37, Nil);
-Obj v__3513862_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513861_37);
-R[1] = v__3513862_37;
-saveCont(co, clofun86, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513193_37);
+Obj v__3513872_37= co->res;
+Obj v__3513198_37 = R[1];
+Obj v__3513199_37 = v__3513872_37;
+Obj v__3513873_37 = makeCons(co->gc, v__3513199_37, Nil);
+Obj v__3513874_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513873_37);
+R[1] = v__3513874_37;
+saveCont(co, clofun91, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513198_37);
 return;
 }
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun85, 1, R);
+saveCont(co, clofun90, 1, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3513842_37= co->res;
+Obj v__3513854_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), v__3513842_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3513854_37, closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-saveCont(co, clofun84, 2, R);
+saveCont(co, clofun89, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v__3513836_37= co->res;
-Obj v__3513837_37 = primNot(v__3513836_37);
-coraReturn(co, v__3513837_37);
+Obj v__3513848_37= co->res;
+Obj v__3513849_37 = primNot(v__3513848_37);
+coraReturn(co, v__3513849_37);
 return;
 }
 case 2:
 {
-Obj v__3513835_37= co->res;
-saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513835_37);
+Obj v__3513847_37= co->res;
+saveCont(co, clofun89, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513847_37);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513090_37 = R[1];
-Obj v__3513091_37 = R[2];
-Obj v__3513820_37 = PRIM_EQ(Nil, v__3513091_37);
-if (True == v__3513820_37) {
+Obj v__3513093_37 = R[1];
+Obj v__3513094_37 = R[2];
+Obj v__3513832_37 = PRIM_EQ(Nil, v__3513094_37);
+if (True == v__3513832_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513178_37 = makeNative(co->gc, 1, clofun82, 0, 2, v__3513091_37, v__3513090_37);
-Obj v__3513824_37 = PRIM_ISCONS(v__3513091_37);
-if (True == v__3513824_37) {
-Obj v__3513825_37 = PRIM_CAR(v__3513091_37);
-Obj v__3513826_37 = PRIM_ISCONS(v__3513825_37);
-if (True == v__3513826_37) {
-Obj v__3513827_37 = PRIM_CAR(v__3513091_37);
-Obj v__3513828_37 = PRIM_CAR(v__3513827_37);
-Obj v__3513180_37 = v__3513828_37;
-Obj v__3513829_37 = PRIM_CAR(v__3513091_37);
-Obj v__3513830_37 = PRIM_CDR(v__3513829_37);
-Obj v__3513181_37 = v__3513830_37;
-Obj v__3513831_37 = PRIM_CDR(v__3513091_37);
-Obj v__3513832_37 = PRIM_EQ(v__3513090_37, v__3513180_37);
-if (True == v__3513832_37) {
-Obj v__3513833_37 = makeCons(co->gc, v__3513180_37, v__3513181_37);
-coraReturn(co, v__3513833_37);
+Obj v__3513183_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3513094_37, v__3513093_37);
+Obj v__3513836_37 = PRIM_ISCONS(v__3513094_37);
+if (True == v__3513836_37) {
+Obj v__3513837_37 = PRIM_CAR(v__3513094_37);
+Obj v__3513838_37 = PRIM_ISCONS(v__3513837_37);
+if (True == v__3513838_37) {
+Obj v__3513839_37 = PRIM_CAR(v__3513094_37);
+Obj v__3513840_37 = PRIM_CAR(v__3513839_37);
+Obj v__3513185_37 = v__3513840_37;
+Obj v__3513841_37 = PRIM_CAR(v__3513094_37);
+Obj v__3513842_37 = PRIM_CDR(v__3513841_37);
+Obj v__3513186_37 = v__3513842_37;
+Obj v__3513843_37 = PRIM_CDR(v__3513094_37);
+Obj v__3513844_37 = PRIM_EQ(v__3513093_37, v__3513185_37);
+if (True == v__3513844_37) {
+Obj v__3513845_37 = makeCons(co->gc, v__3513185_37, v__3513186_37);
+coraReturn(co, v__3513845_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513178_37);
+coraCall0(co, v__3513183_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513178_37);
+coraCall0(co, v__3513183_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513178_37);
+coraCall0(co, v__3513183_37);
 return;
 }
 }
@@ -1393,204 +1400,204 @@ return;
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513821_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513821_37) {
-Obj v__3513822_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513823_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513179_37 = v__3513823_37;
+Obj v__3513833_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513833_37) {
+Obj v__3513834_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513835_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513184_37 = v__3513835_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513179_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513184_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513085_37 = R[1];
-Obj v__3513086_37 = R[2];
-Obj v__3513087_37 = R[3];
-Obj v__3513739_37 = PRIM_EQ(Nil, v__3513087_37);
-if (True == v__3513739_37) {
+Obj v__3513088_37 = R[1];
+Obj v__3513089_37 = R[2];
+Obj v__3513090_37 = R[3];
+Obj v__3513751_37 = PRIM_EQ(Nil, v__3513090_37);
+if (True == v__3513751_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513085_37, v__3513086_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513088_37, v__3513089_37);
 return;
 } else {
-Obj v__3513740_37 = PRIM_ISCONS(v__3513087_37);
-if (True == v__3513740_37) {
-Obj v__3513741_37 = PRIM_CAR(v__3513087_37);
-Obj v__3513175_37 = v__3513741_37;
-Obj v__3513742_37 = PRIM_CDR(v__3513087_37);
-Obj v__3513176_37 = v__3513742_37;
-R[1] = v__3513175_37;
-R[2] = v__3513085_37;
-R[3] = v__3513086_37;
-R[4] = v__3513176_37;
-saveCont(co, clofun81, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513175_37, makeCString(co->gc, "#*ns-export*"));
+Obj v__3513752_37 = PRIM_ISCONS(v__3513090_37);
+if (True == v__3513752_37) {
+Obj v__3513753_37 = PRIM_CAR(v__3513090_37);
+Obj v__3513180_37 = v__3513753_37;
+Obj v__3513754_37 = PRIM_CDR(v__3513090_37);
+Obj v__3513181_37 = v__3513754_37;
+R[1] = v__3513180_37;
+R[2] = v__3513088_37;
+R[3] = v__3513089_37;
+R[4] = v__3513181_37;
+saveCont(co, clofun86, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513180_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513749_37= co->res;
+Obj v__3513761_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513749_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513761_37);
 return;
 }
 case 2:
 {
-Obj v__3513748_37= co->res;
-Obj v__3513175_37 = R[1];
-saveCont(co, clofun81, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513175_37, v__3513748_37);
+Obj v__3513760_37= co->res;
+Obj v__3513180_37 = R[1];
+saveCont(co, clofun86, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513180_37, v__3513760_37);
 return;
 }
 case 3:
 {
-Obj v__3513747_37= co->res;
-Obj v__3513175_37 = R[1];
-R[1] = v__3513175_37;
-saveCont(co, clofun81, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513747_37);
+Obj v__3513759_37= co->res;
+Obj v__3513180_37 = R[1];
+R[1] = v__3513180_37;
+saveCont(co, clofun86, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513759_37);
 return;
 }
 case 4:
 {
-Obj v__3513746_37= co->res;
-Obj v__3513175_37 = R[1];
-Obj v__3513085_37 = R[2];
-Obj v__3513086_37 = R[3];
-Obj v__3513176_37 = R[4];
-if (True == v__3513746_37) {
-R[1] = v__3513175_37;
-saveCont(co, clofun81, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513085_37);
+Obj v__3513758_37= co->res;
+Obj v__3513180_37 = R[1];
+Obj v__3513088_37 = R[2];
+Obj v__3513089_37 = R[3];
+Obj v__3513181_37 = R[4];
+if (True == v__3513758_37) {
+R[1] = v__3513180_37;
+saveCont(co, clofun86, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513088_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513085_37, v__3513086_37, v__3513176_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513088_37, v__3513089_37, v__3513181_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3513745_37= co->res;
-Obj v__3513175_37 = R[1];
-Obj v__3513085_37 = R[2];
-Obj v__3513086_37 = R[3];
-Obj v__3513176_37 = R[4];
-Obj v__3513177_37 = v__3513745_37;
-R[1] = v__3513175_37;
-R[2] = v__3513085_37;
-R[3] = v__3513086_37;
-R[4] = v__3513176_37;
-saveCont(co, clofun81, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v__3513085_37, v__3513177_37);
+Obj v__3513757_37= co->res;
+Obj v__3513180_37 = R[1];
+Obj v__3513088_37 = R[2];
+Obj v__3513089_37 = R[3];
+Obj v__3513181_37 = R[4];
+Obj v__3513182_37 = v__3513757_37;
+R[1] = v__3513180_37;
+R[2] = v__3513088_37;
+R[3] = v__3513089_37;
+R[4] = v__3513181_37;
+saveCont(co, clofun86, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3513088_37, v__3513182_37);
 return;
 }
 case 6:
 {
-Obj v__3513744_37= co->res;
-Obj v__3513175_37 = R[1];
-Obj v__3513085_37 = R[2];
-Obj v__3513086_37 = R[3];
-Obj v__3513176_37 = R[4];
-R[1] = v__3513175_37;
-R[2] = v__3513085_37;
-R[3] = v__3513086_37;
-R[4] = v__3513176_37;
-saveCont(co, clofun81, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513744_37, Nil);
+Obj v__3513756_37= co->res;
+Obj v__3513180_37 = R[1];
+Obj v__3513088_37 = R[2];
+Obj v__3513089_37 = R[3];
+Obj v__3513181_37 = R[4];
+R[1] = v__3513180_37;
+R[2] = v__3513088_37;
+R[3] = v__3513089_37;
+R[4] = v__3513181_37;
+saveCont(co, clofun86, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513756_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3513743_37= co->res;
-Obj v__3513175_37 = R[1];
-Obj v__3513085_37 = R[2];
-Obj v__3513086_37 = R[3];
-Obj v__3513176_37 = R[4];
-R[1] = v__3513175_37;
-R[2] = v__3513085_37;
-R[3] = v__3513086_37;
-R[4] = v__3513176_37;
-saveCont(co, clofun81, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513743_37);
+Obj v__3513755_37= co->res;
+Obj v__3513180_37 = R[1];
+Obj v__3513088_37 = R[2];
+Obj v__3513089_37 = R[3];
+Obj v__3513181_37 = R[4];
+R[1] = v__3513180_37;
+R[2] = v__3513088_37;
+R[3] = v__3513089_37;
+R[4] = v__3513181_37;
+saveCont(co, clofun86, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513755_37);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_var = R[1];
 Obj v_ns = R[2];
-Obj v__3513733_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v__3513733_37) {
+Obj v__3513745_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
+if (True == v__3513745_37) {
 coraReturn(co, v_var);
 return;
 } else {
 R[1] = v_var;
 R[2] = v_ns;
-saveCont(co, clofun80, 4, R);
+saveCont(co, clofun85, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
 return;
 }
 }
 case 1:
 {
-Obj v__3513737_37= co->res;
+Obj v__3513749_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513737_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513749_37);
 return;
 }
 case 2:
 {
-Obj v__3513736_37= co->res;
+Obj v__3513748_37= co->res;
 Obj v_ns = R[1];
-saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513736_37);
+saveCont(co, clofun85, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513748_37);
 return;
 }
 case 3:
 {
-Obj v__3513735_37= co->res;
+Obj v__3513747_37= co->res;
 Obj v_ns = R[1];
 R[1] = v_ns;
-saveCont(co, clofun80, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513735_37);
+saveCont(co, clofun85, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513747_37);
 return;
 }
 case 4:
 {
-Obj v__3513734_37= co->res;
+Obj v__3513746_37= co->res;
 Obj v_var = R[1];
 Obj v_ns = R[2];
-if (True == v__3513734_37) {
+if (True == v__3513746_37) {
 coraReturn(co, v_var);
 return;
 } else {
 R[1] = v_ns;
-saveCont(co, clofun80, 3, R);
+saveCont(co, clofun85, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
 return;
 }
@@ -1598,107 +1605,107 @@ return;
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_sexp = R[1];
 R[1] = v_sexp;
-saveCont(co, clofun79, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_sexp);
+saveCont(co, clofun84, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_sexp);
 return;
 }
 case 1:
 {
-Obj v__3513715_37= co->res;
-Obj v__3513174_37 = R[1];
+Obj v__3513727_37= co->res;
+Obj v__3513179_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3513715_37, makeNative(co->gc, 4, clofun78, 3, 1, v__3513174_37));
+coraCall1(co, v__3513727_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3513179_37));
 return;
 }
 case 2:
 {
-Obj v__3513714_37= co->res;
-Obj v__3513174_37 = R[1];
-R[1] = v__3513174_37;
-saveCont(co, clofun79, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513714_37);
+Obj v__3513726_37= co->res;
+Obj v__3513179_37 = R[1];
+R[1] = v__3513179_37;
+saveCont(co, clofun84, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513726_37);
 return;
 }
 case 3:
 {
-Obj v__3513713_37= co->res;
+Obj v__3513725_37= co->res;
 Obj v_sexp = R[1];
-Obj v__3513174_37 = v__3513713_37;
-R[1] = v__3513174_37;
-saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_sexp);
+Obj v__3513179_37 = v__3513725_37;
+R[1] = v__3513179_37;
+saveCont(co, clofun84, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_sexp);
 return;
 }
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_import = R[1];
 Obj v_export = R[2];
 Obj v_body = R[3];
-Obj v__3513716_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
+Obj v__3513728_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
 R[1] = v_export;
 R[2] = v_body;
-R[3] = v__3513716_37;
-saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun77, 1, 0), v_import);
+R[3] = v__3513728_37;
+saveCont(co, clofun83, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v_import);
 return;
 }
 case 1:
 {
-Obj v__3513726_37= co->res;
-Obj v__3513716_37 = R[1];
-Obj v__3513727_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513726_37);
-Obj v__3513728_37 = makeCons(co->gc, v__3513727_37, Nil);
-Obj v__3513729_37 = makeCons(co->gc, v__3513716_37, v__3513728_37);
-Obj v__3513730_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513729_37);
-Obj v__3513731_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513730_37);
-coraReturn(co, v__3513731_37);
+Obj v__3513738_37= co->res;
+Obj v__3513728_37 = R[1];
+Obj v__3513739_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513738_37);
+Obj v__3513740_37 = makeCons(co->gc, v__3513739_37, Nil);
+Obj v__3513741_37 = makeCons(co->gc, v__3513728_37, v__3513740_37);
+Obj v__3513742_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513741_37);
+Obj v__3513743_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513742_37);
+coraReturn(co, v__3513743_37);
 return;
 }
 case 2:
 {
-Obj v__3513719_37= co->res;
+Obj v__3513731_37= co->res;
 Obj v_export = R[1];
 Obj v_body = R[2];
-Obj v__3513716_37 = R[3];
-Obj v__3513720_37 = makeCons(co->gc, v_export, Nil);
-Obj v__3513721_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513720_37);
-Obj v__3513722_37 = makeCons(co->gc, v__3513721_37, Nil);
-Obj v__3513723_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513722_37);
-Obj v__3513724_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513723_37);
-Obj v__3513725_37 = makeCons(co->gc, v__3513724_37, v_body);
-R[1] = v__3513716_37;
-saveCont(co, clofun78, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513719_37, v__3513725_37);
+Obj v__3513728_37 = R[3];
+Obj v__3513732_37 = makeCons(co->gc, v_export, Nil);
+Obj v__3513733_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513732_37);
+Obj v__3513734_37 = makeCons(co->gc, v__3513733_37, Nil);
+Obj v__3513735_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513734_37);
+Obj v__3513736_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513735_37);
+Obj v__3513737_37 = makeCons(co->gc, v__3513736_37, v_body);
+R[1] = v__3513728_37;
+saveCont(co, clofun83, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513731_37, v__3513737_37);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_imp = R[1];
-Obj v__3513717_37 = makeCons(co->gc, v_imp, Nil);
-Obj v__3513718_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513717_37);
-coraReturn(co, v__3513718_37);
+Obj v__3513729_37 = makeCons(co->gc, v_imp, Nil);
+Obj v__3513730_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513729_37);
+coraReturn(co, v__3513730_37);
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1711,162 +1718,162 @@ return;
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513078_37 = R[1];
-Obj v__3513079_37 = R[2];
-Obj v__3513080_37 = R[3];
-Obj v__3513081_37 = R[4];
-Obj v__3513168_37 = makeNative(co->gc, 1, clofun74, 0, 4, v__3513080_37, v__3513078_37, v__3513079_37, v__3513081_37);
-Obj v__3513693_37 = PRIM_ISCONS(v__3513078_37);
-if (True == v__3513693_37) {
-Obj v__3513694_37 = PRIM_CAR(v__3513078_37);
-Obj v__3513695_37 = PRIM_ISCONS(v__3513694_37);
-if (True == v__3513695_37) {
-Obj v__3513696_37 = PRIM_CAR(v__3513078_37);
-Obj v__3513697_37 = PRIM_CAR(v__3513696_37);
-Obj v__3513698_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513697_37);
-if (True == v__3513698_37) {
-Obj v__3513699_37 = PRIM_CAR(v__3513078_37);
-Obj v__3513700_37 = PRIM_CDR(v__3513699_37);
-Obj v__3513701_37 = PRIM_ISCONS(v__3513700_37);
-if (True == v__3513701_37) {
-Obj v__3513702_37 = PRIM_CAR(v__3513078_37);
-Obj v__3513703_37 = PRIM_CDR(v__3513702_37);
-Obj v__3513704_37 = PRIM_CAR(v__3513703_37);
-Obj v__3513172_37 = v__3513704_37;
-Obj v__3513705_37 = PRIM_CAR(v__3513078_37);
-Obj v__3513706_37 = PRIM_CDR(v__3513705_37);
-Obj v__3513707_37 = PRIM_CDR(v__3513706_37);
-Obj v__3513708_37 = PRIM_EQ(Nil, v__3513707_37);
-if (True == v__3513708_37) {
-Obj v__3513709_37 = PRIM_CDR(v__3513078_37);
-Obj v__3513173_37 = v__3513709_37;
-Obj v__3513710_37 = makeCons(co->gc, v__3513172_37, v__3513079_37);
+Obj v__3513081_37 = R[1];
+Obj v__3513082_37 = R[2];
+Obj v__3513083_37 = R[3];
+Obj v__3513084_37 = R[4];
+Obj v__3513173_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3513083_37, v__3513081_37, v__3513082_37, v__3513084_37);
+Obj v__3513705_37 = PRIM_ISCONS(v__3513081_37);
+if (True == v__3513705_37) {
+Obj v__3513706_37 = PRIM_CAR(v__3513081_37);
+Obj v__3513707_37 = PRIM_ISCONS(v__3513706_37);
+if (True == v__3513707_37) {
+Obj v__3513708_37 = PRIM_CAR(v__3513081_37);
+Obj v__3513709_37 = PRIM_CAR(v__3513708_37);
+Obj v__3513710_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513709_37);
+if (True == v__3513710_37) {
+Obj v__3513711_37 = PRIM_CAR(v__3513081_37);
+Obj v__3513712_37 = PRIM_CDR(v__3513711_37);
+Obj v__3513713_37 = PRIM_ISCONS(v__3513712_37);
+if (True == v__3513713_37) {
+Obj v__3513714_37 = PRIM_CAR(v__3513081_37);
+Obj v__3513715_37 = PRIM_CDR(v__3513714_37);
+Obj v__3513716_37 = PRIM_CAR(v__3513715_37);
+Obj v__3513177_37 = v__3513716_37;
+Obj v__3513717_37 = PRIM_CAR(v__3513081_37);
+Obj v__3513718_37 = PRIM_CDR(v__3513717_37);
+Obj v__3513719_37 = PRIM_CDR(v__3513718_37);
+Obj v__3513720_37 = PRIM_EQ(Nil, v__3513719_37);
+if (True == v__3513720_37) {
+Obj v__3513721_37 = PRIM_CDR(v__3513081_37);
+Obj v__3513178_37 = v__3513721_37;
+Obj v__3513722_37 = makeCons(co->gc, v__3513177_37, v__3513082_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513173_37, v__3513710_37, v__3513080_37, v__3513081_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513178_37, v__3513722_37, v__3513083_37, v__3513084_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513168_37);
+coraCall0(co, v__3513173_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513168_37);
+coraCall0(co, v__3513173_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513168_37);
+coraCall0(co, v__3513173_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513168_37);
+coraCall0(co, v__3513173_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513168_37);
+coraCall0(co, v__3513173_37);
 return;
 }
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513169_37 = makeNative(co->gc, 1, clofun73, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513684_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513684_37) {
-Obj v__3513685_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513686_37 = PRIM_ISCONS(v__3513685_37);
-if (True == v__3513686_37) {
-Obj v__3513687_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513688_37 = PRIM_CAR(v__3513687_37);
-Obj v__3513689_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513688_37);
-if (True == v__3513689_37) {
-Obj v__3513690_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513691_37 = PRIM_CDR(v__3513690_37);
-Obj v__3513170_37 = v__3513691_37;
-Obj v__3513692_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513171_37 = v__3513692_37;
+Obj v__3513174_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513696_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513696_37) {
+Obj v__3513697_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513698_37 = PRIM_ISCONS(v__3513697_37);
+if (True == v__3513698_37) {
+Obj v__3513699_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513700_37 = PRIM_CAR(v__3513699_37);
+Obj v__3513701_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513700_37);
+if (True == v__3513701_37) {
+Obj v__3513702_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513703_37 = PRIM_CDR(v__3513702_37);
+Obj v__3513175_37 = v__3513703_37;
+Obj v__3513704_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513176_37 = v__3513704_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513171_37, closureRef(R[0], 2), v__3513170_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513176_37, closureRef(R[0], 2), v__3513175_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3513174_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3513174_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3513174_37);
 return;
 }
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+saveCont(co, clofun78, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj v__3513683_37= co->res;
+Obj v__3513695_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3513683_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3513695_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun72, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun77, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513681_37= co->res;
-Obj v__3513680_37 = R[1];
+Obj v__3513693_37= co->res;
+Obj v__3513692_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513680_37, v__3513681_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513692_37, v__3513693_37);
 return;
 }
 case 2:
 {
-Obj v__3513680_37= co->res;
+Obj v__3513692_37= co->res;
 Obj v_exp = R[1];
-R[1] = v__3513680_37;
-saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+R[1] = v__3513692_37;
+saveCont(co, clofun77, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1874,135 +1881,135 @@ Obj v_fn = R[1];
 Obj v_arglist = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
-saveCont(co, clofun71, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_arglist);
+saveCont(co, clofun76, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_arglist);
 return;
 }
 case 1:
 {
-Obj v__3513669_37= co->res;
-Obj v__3513668_37 = R[1];
+Obj v__3513681_37= co->res;
+Obj v__3513680_37 = R[1];
 Obj v_fn = R[2];
-Obj v__3513670_37 = makeCons(co->gc, v__3513669_37, Nil);
-Obj v__3513671_37 = makeCons(co->gc, v__3513668_37, v__3513670_37);
-Obj v__3513672_37 = makeCons(co->gc, v_fn, v__3513671_37);
-coraReturn(co, v__3513672_37);
+Obj v__3513682_37 = makeCons(co->gc, v__3513681_37, Nil);
+Obj v__3513683_37 = makeCons(co->gc, v__3513680_37, v__3513682_37);
+Obj v__3513684_37 = makeCons(co->gc, v_fn, v__3513683_37);
+coraReturn(co, v__3513684_37);
 return;
 }
 case 2:
 {
-Obj v__3513675_37= co->res;
-Obj v__3513673_37 = R[1];
+Obj v__3513687_37= co->res;
+Obj v__3513685_37 = R[1];
 Obj v_fn = R[2];
-Obj v__3513676_37 = makeCons(co->gc, v__3513675_37, Nil);
-Obj v__3513677_37 = makeCons(co->gc, v__3513673_37, v__3513676_37);
-Obj v__3513678_37 = makeCons(co->gc, v_fn, v__3513677_37);
-coraReturn(co, v__3513678_37);
+Obj v__3513688_37 = makeCons(co->gc, v__3513687_37, Nil);
+Obj v__3513689_37 = makeCons(co->gc, v__3513685_37, v__3513688_37);
+Obj v__3513690_37 = makeCons(co->gc, v_fn, v__3513689_37);
+coraReturn(co, v__3513690_37);
 return;
 }
 case 3:
 {
-Obj v__3513667_37= co->res;
+Obj v__3513679_37= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
-if (True == v__3513667_37) {
-Obj v__3513668_37 = PRIM_CAR(v_arglist);
-R[1] = v__3513668_37;
+if (True == v__3513679_37) {
+Obj v__3513680_37 = PRIM_CAR(v_arglist);
+R[1] = v__3513680_37;
 R[2] = v_fn;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_arglist);
+saveCont(co, clofun76, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_arglist);
 return;
 } else {
-Obj v__3513673_37 = PRIM_CAR(v_arglist);
-Obj v__3513674_37 = PRIM_CDR(v_arglist);
-R[1] = v__3513673_37;
+Obj v__3513685_37 = PRIM_CAR(v_arglist);
+Obj v__3513686_37 = PRIM_CDR(v_arglist);
+R[1] = v__3513685_37;
 R[2] = v_fn;
-saveCont(co, clofun71, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513674_37);
+saveCont(co, clofun76, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513686_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3513666_37= co->res;
+Obj v__3513678_37= co->res;
 Obj v_arglist = R[1];
 Obj v_fn = R[2];
 R[1] = v_arglist;
 R[2] = v_fn;
-saveCont(co, clofun71, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513666_37);
+saveCont(co, clofun76, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513678_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-saveCont(co, clofun70, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun75, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513664_37= co->res;
+Obj v__3513676_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513664_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513676_37);
 return;
 }
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513073_37 = R[1];
-Obj v__3513644_37 = primIsSymbol(v__3513073_37);
-if (True == v__3513644_37) {
-Obj v__3513645_37 = makeCons(co->gc, v__3513073_37, Nil);
-Obj v__3513646_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513645_37);
-coraReturn(co, v__3513646_37);
+Obj v__3513076_37 = R[1];
+Obj v__3513656_37 = primIsSymbol(v__3513076_37);
+if (True == v__3513656_37) {
+Obj v__3513657_37 = makeCons(co->gc, v__3513076_37, Nil);
+Obj v__3513658_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513657_37);
+coraReturn(co, v__3513658_37);
 return;
 } else {
-Obj v__3513164_37 = makeNative(co->gc, 1, clofun68, 0, 1, v__3513073_37);
-Obj v__3513653_37 = PRIM_ISCONS(v__3513073_37);
-if (True == v__3513653_37) {
-Obj v__3513654_37 = PRIM_CAR(v__3513073_37);
-Obj v__3513655_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513654_37);
-if (True == v__3513655_37) {
-Obj v__3513656_37 = PRIM_CDR(v__3513073_37);
-Obj v__3513657_37 = PRIM_ISCONS(v__3513656_37);
-if (True == v__3513657_37) {
-Obj v__3513658_37 = PRIM_CDR(v__3513073_37);
-Obj v__3513659_37 = PRIM_CAR(v__3513658_37);
-Obj v__3513167_37 = v__3513659_37;
-Obj v__3513660_37 = PRIM_CDR(v__3513073_37);
-Obj v__3513661_37 = PRIM_CDR(v__3513660_37);
-Obj v__3513662_37 = PRIM_EQ(Nil, v__3513661_37);
-if (True == v__3513662_37) {
-coraReturn(co, v__3513167_37);
+Obj v__3513169_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3513076_37);
+Obj v__3513665_37 = PRIM_ISCONS(v__3513076_37);
+if (True == v__3513665_37) {
+Obj v__3513666_37 = PRIM_CAR(v__3513076_37);
+Obj v__3513667_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513666_37);
+if (True == v__3513667_37) {
+Obj v__3513668_37 = PRIM_CDR(v__3513076_37);
+Obj v__3513669_37 = PRIM_ISCONS(v__3513668_37);
+if (True == v__3513669_37) {
+Obj v__3513670_37 = PRIM_CDR(v__3513076_37);
+Obj v__3513671_37 = PRIM_CAR(v__3513670_37);
+Obj v__3513172_37 = v__3513671_37;
+Obj v__3513672_37 = PRIM_CDR(v__3513076_37);
+Obj v__3513673_37 = PRIM_CDR(v__3513672_37);
+Obj v__3513674_37 = PRIM_EQ(Nil, v__3513673_37);
+if (True == v__3513674_37) {
+coraReturn(co, v__3513172_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513164_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513164_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513164_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513164_37);
+coraCall0(co, v__3513169_37);
 return;
 }
 }
@@ -2010,19 +2017,19 @@ return;
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513647_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513647_37) {
-Obj v__3513648_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513165_37 = v__3513648_37;
-Obj v__3513649_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513166_37 = v__3513649_37;
-Obj v__3513650_37 = makeCons(co->gc, v__3513165_37, v__3513166_37);
-saveCont(co, clofun68, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 88)), v__3513650_37);
+Obj v__3513659_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513659_37) {
+Obj v__3513660_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513170_37 = v__3513660_37;
+Obj v__3513661_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513171_37 = v__3513661_37;
+Obj v__3513662_37 = makeCons(co->gc, v__3513170_37, v__3513171_37);
+saveCont(co, clofun73, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3513662_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2031,159 +2038,159 @@ return;
 }
 case 1:
 {
-Obj v__3513651_37= co->res;
-Obj v__3513652_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513651_37);
-coraReturn(co, v__3513652_37);
+Obj v__3513663_37= co->res;
+Obj v__3513664_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3513663_37);
+coraReturn(co, v__3513664_37);
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513642_37 = PRIM_CDR(v_exp);
+Obj v__3513654_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513654_37);
 return;
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513069_37 = R[1];
-Obj v__3513157_37 = makeNative(co->gc, 1, clofun65, 0, 1, v__3513069_37);
-Obj v__3513637_37 = PRIM_ISCONS(v__3513069_37);
-if (True == v__3513637_37) {
-Obj v__3513638_37 = PRIM_CAR(v__3513069_37);
-Obj v__3513163_37 = v__3513638_37;
-Obj v__3513639_37 = PRIM_CDR(v__3513069_37);
-Obj v__3513640_37 = PRIM_EQ(Nil, v__3513639_37);
-if (True == v__3513640_37) {
-coraReturn(co, v__3513163_37);
+Obj v__3513072_37 = R[1];
+Obj v__3513162_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3513072_37);
+Obj v__3513649_37 = PRIM_ISCONS(v__3513072_37);
+if (True == v__3513649_37) {
+Obj v__3513650_37 = PRIM_CAR(v__3513072_37);
+Obj v__3513168_37 = v__3513650_37;
+Obj v__3513651_37 = PRIM_CDR(v__3513072_37);
+Obj v__3513652_37 = PRIM_EQ(Nil, v__3513651_37);
+if (True == v__3513652_37) {
+coraReturn(co, v__3513168_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513157_37);
+coraCall0(co, v__3513162_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513157_37);
+coraCall0(co, v__3513162_37);
 return;
 }
 }
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513158_37 = makeNative(co->gc, 2, clofun64, 0, 1, closureRef(R[0], 0));
-Obj v__3513625_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513625_37) {
-Obj v__3513626_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513161_37 = v__3513626_37;
-Obj v__3513627_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513628_37 = PRIM_ISCONS(v__3513627_37);
-if (True == v__3513628_37) {
-Obj v__3513629_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513630_37 = PRIM_CAR(v__3513629_37);
-Obj v__3513162_37 = v__3513630_37;
-Obj v__3513631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513632_37 = PRIM_CDR(v__3513631_37);
-Obj v__3513633_37 = PRIM_EQ(Nil, v__3513632_37);
-if (True == v__3513633_37) {
-Obj v__3513634_37 = makeCons(co->gc, v__3513162_37, Nil);
-Obj v__3513635_37 = makeCons(co->gc, v__3513161_37, v__3513634_37);
-Obj v__3513636_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513635_37);
-coraReturn(co, v__3513636_37);
+Obj v__3513163_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
+Obj v__3513637_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513637_37) {
+Obj v__3513638_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513166_37 = v__3513638_37;
+Obj v__3513639_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513640_37 = PRIM_ISCONS(v__3513639_37);
+if (True == v__3513640_37) {
+Obj v__3513641_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513642_37 = PRIM_CAR(v__3513641_37);
+Obj v__3513167_37 = v__3513642_37;
+Obj v__3513643_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513644_37 = PRIM_CDR(v__3513643_37);
+Obj v__3513645_37 = PRIM_EQ(Nil, v__3513644_37);
+if (True == v__3513645_37) {
+Obj v__3513646_37 = makeCons(co->gc, v__3513167_37, Nil);
+Obj v__3513647_37 = makeCons(co->gc, v__3513166_37, v__3513646_37);
+Obj v__3513648_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513647_37);
+coraReturn(co, v__3513648_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513158_37);
+coraCall0(co, v__3513163_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513158_37);
+coraCall0(co, v__3513163_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513158_37);
+coraCall0(co, v__3513163_37);
 return;
 }
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513618_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513618_37) {
-Obj v__3513619_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513159_37 = v__3513619_37;
-Obj v__3513620_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513160_37 = v__3513620_37;
-R[1] = v__3513159_37;
-saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513160_37);
+Obj v__3513630_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513630_37) {
+Obj v__3513631_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513164_37 = v__3513631_37;
+Obj v__3513632_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513165_37 = v__3513632_37;
+R[1] = v__3513164_37;
+saveCont(co, clofun69, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513165_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3513621_37= co->res;
-Obj v__3513159_37 = R[1];
-Obj v__3513622_37 = makeCons(co->gc, v__3513621_37, Nil);
-Obj v__3513623_37 = makeCons(co->gc, v__3513159_37, v__3513622_37);
-Obj v__3513624_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513623_37);
-coraReturn(co, v__3513624_37);
+Obj v__3513633_37= co->res;
+Obj v__3513164_37 = R[1];
+Obj v__3513634_37 = makeCons(co->gc, v__3513633_37, Nil);
+Obj v__3513635_37 = makeCons(co->gc, v__3513164_37, v__3513634_37);
+Obj v__3513636_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513635_37);
+coraReturn(co, v__3513636_37);
 return;
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
-saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp);
+saveCont(co, clofun68, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513616_37= co->res;
+Obj v__3513628_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513616_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513628_37);
 return;
 }
 case 2:
 {
-Obj v__3513615_37= co->res;
-saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513615_37);
+Obj v__3513627_37= co->res;
+saveCont(co, clofun68, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513627_37);
 return;
 }
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2194,7 +2201,7 @@ return;
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2206,219 +2213,240 @@ return;
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun60, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+saveCont(co, clofun65, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513604_37= co->res;
-Obj v__3513154_37 = R[1];
-Obj v__3513156_37 = R[2];
-Obj v__3513605_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513156_37);
-Obj v__3513606_37 = makeCons(co->gc, v__3513605_37, v__3513154_37);
-Obj v__3513607_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3513606_37);
-Obj v__3513608_37 = makeCons(co->gc, v__3513607_37, Nil);
-Obj v__3513609_37 = makeCons(co->gc, v__3513156_37, v__3513608_37);
-Obj v__3513610_37 = makeCons(co->gc, v__3513604_37, v__3513609_37);
-Obj v__3513611_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513610_37);
-coraReturn(co, v__3513611_37);
+Obj v__3513619_37= co->res;
+Obj v__3513161_37 = R[1];
+Obj v__3513617_37 = R[2];
+Obj v__3513620_37 = makeCons(co->gc, v__3513619_37, Nil);
+Obj v__3513621_37 = makeCons(co->gc, v__3513161_37, v__3513620_37);
+Obj v__3513622_37 = makeCons(co->gc, v__3513617_37, v__3513621_37);
+Obj v__3513623_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513622_37);
+coraReturn(co, v__3513623_37);
 return;
 }
 case 2:
 {
-Obj v__3513603_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513154_37 = R[2];
-Obj v__3513156_37 = v__3513603_37;
-R[1] = v__3513154_37;
-R[2] = v__3513156_37;
-saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+Obj v__3513618_37= co->res;
+Obj v__3513159_37 = R[1];
+Obj v__3513161_37 = R[2];
+Obj v__3513617_37 = R[3];
+R[1] = v__3513161_37;
+R[2] = v__3513617_37;
+saveCont(co, clofun65, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3513618_37, v__3513159_37);
 return;
 }
 case 3:
 {
-Obj v__3513602_37= co->res;
+Obj v__3513617_37= co->res;
+Obj v__3513159_37 = R[1];
+Obj v__3513161_37 = R[2];
+R[1] = v__3513159_37;
+R[2] = v__3513161_37;
+R[3] = v__3513617_37;
+saveCont(co, clofun65, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3513161_37);
+return;
+}
+case 4:
+{
+Obj v__3513616_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513159_37 = R[2];
+Obj v__3513161_37 = v__3513616_37;
+R[1] = v__3513159_37;
+R[2] = v__3513161_37;
+saveCont(co, clofun65, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+return;
+}
+case 5:
+{
+Obj v__3513615_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513154_37 = R[2];
-Obj v__3513155_37 = v__3513602_37;
+Obj v__3513159_37 = R[2];
+Obj v__3513160_37 = v__3513615_37;
 R[1] = v_exp;
-R[2] = v__3513154_37;
-saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513155_37);
+R[2] = v__3513159_37;
+saveCont(co, clofun65, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513160_37);
 return;
 }
-case 4:
+case 6:
 {
-Obj v__3513601_37= co->res;
+Obj v__3513614_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513154_37 = v__3513601_37;
+Obj v__3513159_37 = v__3513614_37;
 R[1] = v_exp;
-R[2] = v__3513154_37;
-saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513154_37);
+R[2] = v__3513159_37;
+saveCont(co, clofun65, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513159_37);
 return;
 }
-case 5:
+case 7:
 {
-Obj v__3513600_37= co->res;
+Obj v__3513613_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun60, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513600_37);
+saveCont(co, clofun65, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513613_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_n = R[1];
-Obj v__3513594_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v__3513594_37) {
+Obj v__3513607_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
+if (True == v__3513607_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513595_37 = primGenSym(co);
-Obj v__3513596_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v__3513595_37;
-saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513596_37);
+Obj v__3513608_37 = primGenSym(co);
+Obj v__3513609_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
+R[1] = v__3513608_37;
+saveCont(co, clofun64, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513609_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513597_37= co->res;
-Obj v__3513595_37 = R[1];
-Obj v__3513598_37 = makeCons(co->gc, v__3513595_37, v__3513597_37);
-coraReturn(co, v__3513598_37);
+Obj v__3513610_37= co->res;
+Obj v__3513608_37 = R[1];
+Obj v__3513611_37 = makeCons(co->gc, v__3513608_37, v__3513610_37);
+coraReturn(co, v__3513611_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_rules = R[1];
-saveCont(co, clofun58, 4, R);
+saveCont(co, clofun63, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
 return;
 }
 case 1:
 {
-Obj v__3513591_37= co->res;
-Obj v__3513153_37 = R[1];
-Obj v__3513592_37 = primNot(v__3513591_37);
-if (True == v__3513592_37) {
+Obj v__3513604_37= co->res;
+Obj v__3513158_37 = R[1];
+Obj v__3513605_37 = primNot(v__3513604_37);
+if (True == v__3513605_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "inconsistent func rule args count"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3513153_37);
+coraReturn(co, v__3513158_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3513590_37= co->res;
-Obj v__3513153_37 = R[1];
-R[1] = v__3513153_37;
-saveCont(co, clofun58, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513590_37);
+Obj v__3513603_37= co->res;
+Obj v__3513158_37 = R[1];
+R[1] = v__3513158_37;
+saveCont(co, clofun63, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513603_37);
 return;
 }
 case 3:
 {
-Obj v__3513585_37= co->res;
-Obj v__3513152_37 = v__3513585_37;
-Obj v__3513586_37 = PRIM_CAR(v__3513152_37);
-Obj v__3513153_37 = v__3513586_37;
-Obj v__3513589_37 = PRIM_CDR(v__3513152_37);
-R[1] = v__3513153_37;
-saveCont(co, clofun58, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun57, 1, 1, v__3513153_37), v__3513589_37);
+Obj v__3513598_37= co->res;
+Obj v__3513157_37 = v__3513598_37;
+Obj v__3513599_37 = PRIM_CAR(v__3513157_37);
+Obj v__3513158_37 = v__3513599_37;
+Obj v__3513602_37 = PRIM_CDR(v__3513157_37);
+R[1] = v__3513158_37;
+saveCont(co, clofun63, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3513158_37), v__3513602_37);
 return;
 }
 case 4:
 {
-Obj v__3513583_37= co->res;
-Obj v__3513151_37 = v__3513583_37;
-saveCont(co, clofun58, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), makeNative(co->gc, 2, clofun56, 1, 0), v__3513151_37);
+Obj v__3513596_37= co->res;
+Obj v__3513156_37 = v__3513596_37;
+saveCont(co, clofun63, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3513156_37);
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513587_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v__3513588_37 = primNot(v__3513587_37);
-coraReturn(co, v__3513588_37);
+Obj v__3513600_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
+Obj v__3513601_37 = primNot(v__3513600_37);
+coraReturn(co, v__3513601_37);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513584_37 = PRIM_CDR(v_x);
+Obj v__3513597_37 = PRIM_CDR(v_x);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513584_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513597_37);
 return;
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_l1 = R[1];
 Obj v_l2 = R[2];
-Obj v__3513577_37 = PRIM_EQ(v_l1, Nil);
-if (True == v__3513577_37) {
+Obj v__3513590_37 = PRIM_EQ(v_l1, Nil);
+if (True == v__3513590_37) {
 coraReturn(co, v_l2);
 return;
 } else {
-Obj v__3513578_37 = PRIM_CAR(v_l1);
-Obj v__3513579_37 = PRIM_CDR(v_l1);
-R[1] = v__3513578_37;
-saveCont(co, clofun55, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513579_37, v_l2);
+Obj v__3513591_37 = PRIM_CAR(v_l1);
+Obj v__3513592_37 = PRIM_CDR(v_l1);
+R[1] = v__3513591_37;
+saveCont(co, clofun60, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513592_37, v_l2);
 return;
 }
 }
 case 1:
 {
-Obj v__3513580_37= co->res;
-Obj v__3513578_37 = R[1];
-Obj v__3513581_37 = makeCons(co->gc, v__3513578_37, v__3513580_37);
-coraReturn(co, v__3513581_37);
+Obj v__3513593_37= co->res;
+Obj v__3513591_37 = R[1];
+Obj v__3513594_37 = makeCons(co->gc, v__3513591_37, v__3513593_37);
+coraReturn(co, v__3513594_37);
 return;
 }
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2431,52 +2459,52 @@ return;
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_res = R[1];
 Obj v_fn = R[2];
 Obj v_l = R[3];
-Obj v__3513568_37 = PRIM_ISCONS(v_l);
-if (True == v__3513568_37) {
-Obj v__3513569_37 = PRIM_CAR(v_l);
+Obj v__3513581_37 = PRIM_ISCONS(v_l);
+if (True == v__3513581_37) {
+Obj v__3513582_37 = PRIM_CAR(v_l);
 R[1] = v_l;
 R[2] = v_res;
 R[3] = v_fn;
-saveCont(co, clofun53, 1, R);
-coraCall1(co, v_fn, v__3513569_37);
+saveCont(co, clofun58, 1, R);
+coraCall1(co, v_fn, v__3513582_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj v__3513570_37= co->res;
+Obj v__3513583_37= co->res;
 Obj v_l = R[1];
 Obj v_res = R[2];
 Obj v_fn = R[3];
-if (True == v__3513570_37) {
-Obj v__3513571_37 = PRIM_CAR(v_l);
-Obj v__3513572_37 = makeCons(co->gc, v__3513571_37, v_res);
-Obj v__3513573_37 = PRIM_CDR(v_l);
+if (True == v__3513583_37) {
+Obj v__3513584_37 = PRIM_CAR(v_l);
+Obj v__3513585_37 = makeCons(co->gc, v__3513584_37, v_res);
+Obj v__3513586_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513572_37, v_fn, v__3513573_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513585_37, v_fn, v__3513586_37);
 return;
 } else {
-Obj v__3513574_37 = PRIM_CDR(v_l);
+Obj v__3513587_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513574_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513587_37);
 return;
 }
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2488,28 +2516,28 @@ return;
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_i = R[1];
 Obj v_l = R[2];
-Obj v__3513563_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513563_37) {
+Obj v__3513576_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513576_37) {
 coraReturn(co, v_i);
 return;
 } else {
-Obj v__3513564_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v__3513565_37 = PRIM_CDR(v_l);
+Obj v__3513577_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
+Obj v__3513578_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513564_37, v__3513565_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513577_37, v__3513578_37);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2517,40 +2545,40 @@ Obj v_res = R[1];
 Obj v_rules = R[2];
 R[1] = v_res;
 R[2] = v_rules;
-saveCont(co, clofun50, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
+saveCont(co, clofun55, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
 return;
 }
 case 1:
 {
-Obj v__3513561_37= co->res;
-Obj v__3513560_37 = R[1];
+Obj v__3513574_37= co->res;
+Obj v__3513573_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513560_37, v__3513561_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513573_37, v__3513574_37);
 return;
 }
 case 2:
 {
-Obj v__3513558_37= co->res;
+Obj v__3513571_37= co->res;
 Obj v_res = R[1];
 Obj v_rules = R[2];
-if (True == v__3513558_37) {
+if (True == v__3513571_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 } else {
-Obj v__3513559_37 = PRIM_CAR(v_rules);
-Obj v__3513560_37 = makeCons(co->gc, v__3513559_37, v_res);
-R[1] = v__3513560_37;
-saveCont(co, clofun50, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_rules);
+Obj v__3513572_37 = PRIM_CAR(v_rules);
+Obj v__3513573_37 = makeCons(co->gc, v__3513572_37, v_res);
+R[1] = v__3513573_37;
+saveCont(co, clofun55, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_rules);
 return;
 }
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2562,195 +2590,195 @@ return;
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_input = R[1];
 Obj v_current = R[2];
 Obj v_result = R[3];
-Obj v__3513505_37 = PRIM_EQ(Nil, v_input);
-if (True == v__3513505_37) {
+Obj v__3513518_37 = PRIM_EQ(Nil, v_input);
+if (True == v__3513518_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_result);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_result);
 return;
 } else {
-Obj v__3513140_37 = makeNative(co->gc, 3, clofun47, 0, 3, v_input, v_current, v_result);
-Obj v__3513523_37 = PRIM_ISCONS(v_input);
-if (True == v__3513523_37) {
-Obj v__3513524_37 = PRIM_CAR(v_input);
-Obj v__3513525_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513524_37);
-if (True == v__3513525_37) {
-Obj v__3513526_37 = PRIM_CDR(v_input);
-Obj v__3513527_37 = PRIM_ISCONS(v__3513526_37);
-if (True == v__3513527_37) {
-Obj v__3513528_37 = PRIM_CDR(v_input);
-Obj v__3513529_37 = PRIM_CAR(v__3513528_37);
-Obj v__3513147_37 = v__3513529_37;
-Obj v__3513530_37 = PRIM_CDR(v_input);
-Obj v__3513531_37 = PRIM_CDR(v__3513530_37);
-Obj v__3513532_37 = PRIM_ISCONS(v__3513531_37);
-if (True == v__3513532_37) {
-Obj v__3513533_37 = PRIM_CDR(v_input);
-Obj v__3513534_37 = PRIM_CDR(v__3513533_37);
-Obj v__3513535_37 = PRIM_CAR(v__3513534_37);
-Obj v__3513536_37 = PRIM_EQ(getBinding(co, packageID, 110).name, v__3513535_37);
+Obj v__3513145_37 = makeNative(co->gc, 3, clofun52, 0, 3, v_input, v_current, v_result);
+Obj v__3513536_37 = PRIM_ISCONS(v_input);
 if (True == v__3513536_37) {
-Obj v__3513537_37 = PRIM_CDR(v_input);
-Obj v__3513538_37 = PRIM_CDR(v__3513537_37);
-Obj v__3513539_37 = PRIM_CDR(v__3513538_37);
+Obj v__3513537_37 = PRIM_CAR(v_input);
+Obj v__3513538_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513537_37);
+if (True == v__3513538_37) {
+Obj v__3513539_37 = PRIM_CDR(v_input);
 Obj v__3513540_37 = PRIM_ISCONS(v__3513539_37);
 if (True == v__3513540_37) {
 Obj v__3513541_37 = PRIM_CDR(v_input);
-Obj v__3513542_37 = PRIM_CDR(v__3513541_37);
-Obj v__3513543_37 = PRIM_CDR(v__3513542_37);
-Obj v__3513544_37 = PRIM_CAR(v__3513543_37);
-Obj v__3513148_37 = v__3513544_37;
-Obj v__3513545_37 = PRIM_CDR(v_input);
-Obj v__3513546_37 = PRIM_CDR(v__3513545_37);
+Obj v__3513542_37 = PRIM_CAR(v__3513541_37);
+Obj v__3513152_37 = v__3513542_37;
+Obj v__3513543_37 = PRIM_CDR(v_input);
+Obj v__3513544_37 = PRIM_CDR(v__3513543_37);
+Obj v__3513545_37 = PRIM_ISCONS(v__3513544_37);
+if (True == v__3513545_37) {
+Obj v__3513546_37 = PRIM_CDR(v_input);
 Obj v__3513547_37 = PRIM_CDR(v__3513546_37);
-Obj v__3513548_37 = PRIM_CDR(v__3513547_37);
-Obj v__3513149_37 = v__3513548_37;
-R[1] = v__3513147_37;
-R[2] = v__3513148_37;
+Obj v__3513548_37 = PRIM_CAR(v__3513547_37);
+Obj v__3513549_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3513548_37);
+if (True == v__3513549_37) {
+Obj v__3513550_37 = PRIM_CDR(v_input);
+Obj v__3513551_37 = PRIM_CDR(v__3513550_37);
+Obj v__3513552_37 = PRIM_CDR(v__3513551_37);
+Obj v__3513553_37 = PRIM_ISCONS(v__3513552_37);
+if (True == v__3513553_37) {
+Obj v__3513554_37 = PRIM_CDR(v_input);
+Obj v__3513555_37 = PRIM_CDR(v__3513554_37);
+Obj v__3513556_37 = PRIM_CDR(v__3513555_37);
+Obj v__3513557_37 = PRIM_CAR(v__3513556_37);
+Obj v__3513153_37 = v__3513557_37;
+Obj v__3513558_37 = PRIM_CDR(v_input);
+Obj v__3513559_37 = PRIM_CDR(v__3513558_37);
+Obj v__3513560_37 = PRIM_CDR(v__3513559_37);
+Obj v__3513561_37 = PRIM_CDR(v__3513560_37);
+Obj v__3513154_37 = v__3513561_37;
+R[1] = v__3513152_37;
+R[2] = v__3513153_37;
 R[3] = v_result;
-R[4] = v__3513149_37;
-saveCont(co, clofun48, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_current);
+R[4] = v__3513154_37;
+saveCont(co, clofun53, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_current);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513140_37);
+coraCall0(co, v__3513145_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513549_37= co->res;
-Obj v__3513147_37 = R[1];
-Obj v__3513148_37 = R[2];
+Obj v__3513562_37= co->res;
+Obj v__3513152_37 = R[1];
+Obj v__3513153_37 = R[2];
 Obj v_result = R[3];
-Obj v__3513149_37 = R[4];
-Obj v__3513550_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513549_37);
-Obj v__3513150_37 = v__3513550_37;
-Obj v__3513551_37 = makeCons(co->gc, v__3513147_37, Nil);
-Obj v__3513552_37 = makeCons(co->gc, v__3513148_37, v__3513551_37);
-Obj v__3513553_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3513552_37);
-Obj v__3513554_37 = makeCons(co->gc, v__3513150_37, v_result);
-Obj v__3513555_37 = makeCons(co->gc, v__3513553_37, v__3513554_37);
+Obj v__3513154_37 = R[4];
+Obj v__3513563_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3513562_37);
+Obj v__3513155_37 = v__3513563_37;
+Obj v__3513564_37 = makeCons(co->gc, v__3513152_37, Nil);
+Obj v__3513565_37 = makeCons(co->gc, v__3513153_37, v__3513564_37);
+Obj v__3513566_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3513565_37);
+Obj v__3513567_37 = makeCons(co->gc, v__3513155_37, v_result);
+Obj v__3513568_37 = makeCons(co->gc, v__3513566_37, v__3513567_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513149_37, Nil, v__3513555_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513154_37, Nil, v__3513568_37);
 return;
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513141_37 = makeNative(co->gc, 1, clofun46, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513510_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513510_37) {
-Obj v__3513511_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513512_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513511_37);
-if (True == v__3513512_37) {
-Obj v__3513513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513514_37 = PRIM_ISCONS(v__3513513_37);
-if (True == v__3513514_37) {
-Obj v__3513515_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513516_37 = PRIM_CAR(v__3513515_37);
-Obj v__3513144_37 = v__3513516_37;
-Obj v__3513517_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513518_37 = PRIM_CDR(v__3513517_37);
-Obj v__3513145_37 = v__3513518_37;
-R[1] = v__3513144_37;
-R[2] = v__3513145_37;
-saveCont(co, clofun47, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), closureRef(R[0], 1));
+Obj v__3513146_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3513523_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513523_37) {
+Obj v__3513524_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513525_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513524_37);
+if (True == v__3513525_37) {
+Obj v__3513526_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513527_37 = PRIM_ISCONS(v__3513526_37);
+if (True == v__3513527_37) {
+Obj v__3513528_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513529_37 = PRIM_CAR(v__3513528_37);
+Obj v__3513149_37 = v__3513529_37;
+Obj v__3513530_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513531_37 = PRIM_CDR(v__3513530_37);
+Obj v__3513150_37 = v__3513531_37;
+R[1] = v__3513149_37;
+R[2] = v__3513150_37;
+saveCont(co, clofun52, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513146_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513146_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513141_37);
+coraCall0(co, v__3513146_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513519_37= co->res;
-Obj v__3513144_37 = R[1];
-Obj v__3513145_37 = R[2];
-Obj v__3513520_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513519_37);
-Obj v__3513146_37 = v__3513520_37;
-Obj v__3513521_37 = makeCons(co->gc, v__3513146_37, closureRef(R[0], 2));
-Obj v__3513522_37 = makeCons(co->gc, v__3513144_37, v__3513521_37);
+Obj v__3513532_37= co->res;
+Obj v__3513149_37 = R[1];
+Obj v__3513150_37 = R[2];
+Obj v__3513533_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3513532_37);
+Obj v__3513151_37 = v__3513533_37;
+Obj v__3513534_37 = makeCons(co->gc, v__3513151_37, closureRef(R[0], 2));
+Obj v__3513535_37 = makeCons(co->gc, v__3513149_37, v__3513534_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513145_37, Nil, v__3513522_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513150_37, Nil, v__3513535_37);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513506_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513506_37) {
-Obj v__3513507_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513142_37 = v__3513507_37;
-Obj v__3513508_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513143_37 = v__3513508_37;
-Obj v__3513509_37 = makeCons(co->gc, v__3513142_37, closureRef(R[0], 1));
+Obj v__3513519_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3513519_37) {
+Obj v__3513520_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3513147_37 = v__3513520_37;
+Obj v__3513521_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513148_37 = v__3513521_37;
+Obj v__3513522_37 = makeCons(co->gc, v__3513147_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513143_37, v__3513509_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513148_37, v__3513522_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -2762,91 +2790,199 @@ return;
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v_exp = R[1];
 R[1] = v_exp;
-saveCont(co, clofun44, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+saveCont(co, clofun49, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513492_37= co->res;
-Obj v__3513134_37 = R[1];
-Obj v__3513135_37 = v__3513492_37;
-Obj v__3513138_37 = makeNative(co->gc, 2, clofun43, 1, 2, v__3513134_37, v__3513135_37);
-Obj v__3513499_37 = PRIM_ISCONS(v__3513134_37);
-if (True == v__3513499_37) {
-Obj v__3513500_37 = PRIM_CAR(v__3513134_37);
-Obj v__3513501_37 = PRIM_EQ(getBinding(co, packageID, 152).name, v__3513500_37);
-Obj v__3513502_37 = primNot(v__3513501_37);
-if (True == v__3513502_37) {
+Obj v__3513515_37= co->res;
+Obj v__3513144_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3513138_37, True);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513515_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3513144_37));
+return;
+}
+case 2:
+{
+Obj v__3513514_37= co->res;
+Obj v__3513144_37 = R[1];
+R[1] = v__3513144_37;
+saveCont(co, clofun49, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3513514_37);
+return;
+}
+case 3:
+{
+Obj v__3513513_37= co->res;
+Obj v_exp = R[1];
+Obj v__3513144_37 = v__3513513_37;
+R[1] = v__3513144_37;
+saveCont(co, clofun49, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+return;
+}
+}
+}
+
+static void clofun48(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_value = R[1];
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v_value, closureRef(R[0], 0));
+return;
+}
+}
+}
+
+static void clofun47(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_value = R[1];
+Obj v_k = R[2];
+Obj v__3513139_37 = makeNative(co->gc, 2, clofun46, 1, 2, v_k, v_value);
+Obj v__3513509_37 = PRIM_ISCONS(v_value);
+if (True == v__3513509_37) {
+Obj v__3513510_37 = PRIM_CAR(v_value);
+Obj v__3513511_37 = PRIM_EQ(v__3513510_37, getBinding(co, packageID, 153).name);
+if (True == v__3513511_37) {
+co->ctx.sp = R;
+coraCall1(co, v__3513139_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513138_37, False);
+coraCall1(co, v__3513139_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513138_37, False);
+coraCall1(co, v__3513139_37, False);
 return;
 }
 }
-case 2:
+}
+}
+
+static void clofun46(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
 {
-Obj v__3513491_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513134_37 = v__3513491_37;
-R[1] = v__3513134_37;
-saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+Obj v__3513138_37 = R[1];
+if (True == v__3513138_37) {
+saveCont(co, clofun46, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
+return;
+} else {
+Obj v__3513142_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+R[1] = v__3513142_37;
+saveCont(co, clofun46, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 1));
 return;
 }
-case 3:
+}
+case 1:
 {
-Obj v__3513490_37= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
-saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513490_37);
+Obj v__3513495_37= co->res;
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513495_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
 return;
 }
+case 2:
+{
+Obj v__3513506_37= co->res;
+Obj v__3513142_37 = R[1];
+if (True == v__3513506_37) {
+Obj v__3513507_37 = primIsSymbol(closureRef(R[0], 1));
+Obj v__3513508_37 = primNot(v__3513507_37);
+if (True == v__3513508_37) {
+co->ctx.sp = R;
+coraCall1(co, v__3513142_37, True);
+return;
+} else {
+co->ctx.sp = R;
+coraCall1(co, v__3513142_37, False);
+return;
+}
+} else {
+co->ctx.sp = R;
+coraCall1(co, v__3513142_37, False);
+return;
+}
+}
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513137_37 = R[1];
-if (True == v__3513137_37) {
-Obj v__3513493_37 = primGenSym(co);
-Obj v__3513139_37 = v__3513493_37;
-R[1] = v__3513139_37;
-saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513139_37, closureRef(R[0], 1));
+Obj v__3513141_37 = R[1];
+if (True == v__3513141_37) {
+co->ctx.sp = R;
+coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3513500_37 = primGenSym(co);
+Obj v__3513143_37 = v__3513500_37;
+R[1] = v__3513143_37;
+saveCont(co, clofun45, 1, R);
+coraCall1(co, closureRef(R[0], 1), v__3513143_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513494_37= co->res;
-Obj v__3513139_37 = R[1];
-Obj v__3513495_37 = makeCons(co->gc, v__3513494_37, Nil);
-Obj v__3513496_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513495_37);
-Obj v__3513497_37 = makeCons(co->gc, v__3513139_37, v__3513496_37);
-Obj v__3513498_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513497_37);
-coraReturn(co, v__3513498_37);
+Obj v__3513501_37= co->res;
+Obj v__3513143_37 = R[1];
+Obj v__3513502_37 = makeCons(co->gc, v__3513501_37, Nil);
+Obj v__3513503_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513502_37);
+Obj v__3513504_37 = makeCons(co->gc, v__3513143_37, v__3513503_37);
+Obj v__3513505_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513504_37);
+coraReturn(co, v__3513505_37);
+return;
+}
+}
+}
+
+static void clofun44(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_x = R[1];
+R[1] = v_x;
+saveCont(co, clofun44, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 0));
+return;
+}
+case 1:
+{
+Obj v__3513496_37= co->res;
+Obj v_x = R[1];
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513496_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v_x));
+return;
+}
+}
+}
+
+static void clofun43(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v_y = R[1];
+Obj v__3513497_37 = makeCons(co->gc, v_y, Nil);
+Obj v__3513498_37 = makeCons(co->gc, closureRef(R[0], 1), v__3513497_37);
+Obj v__3513499_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513498_37);
+co->ctx.sp = R;
+coraCall1(co, closureRef(R[0], 0), v__3513499_37);
 return;
 }
 }
@@ -2861,56 +2997,56 @@ Obj v_rules = R[2];
 R[1] = v_value;
 R[2] = v_rules;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
 return;
 }
 case 1:
 {
-Obj v__3513488_37= co->res;
-Obj v__3513128_37 = R[1];
-if (True == v__3513488_37) {
+Obj v__3513493_37= co->res;
+Obj v__3513131_37 = R[1];
+if (True == v__3513493_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513128_37, True);
+coraCall1(co, v__3513131_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513128_37, False);
+coraCall1(co, v__3513131_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513486_37= co->res;
+Obj v__3513491_37= co->res;
 Obj v_rules = R[1];
-Obj v__3513128_37 = R[2];
-if (True == v__3513486_37) {
-Obj v__3513487_37 = PRIM_CDR(v_rules);
-R[1] = v__3513128_37;
+Obj v__3513131_37 = R[2];
+if (True == v__3513491_37) {
+Obj v__3513492_37 = PRIM_CDR(v_rules);
+R[1] = v__3513131_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513487_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3513492_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513128_37, False);
+coraCall1(co, v__3513131_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3513468_37= co->res;
+Obj v__3513473_37= co->res;
 Obj v_value = R[1];
 Obj v_rules = R[2];
-if (True == v__3513468_37) {
-Obj v__3513469_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3513470_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513469_37);
-coraReturn(co, v__3513470_37);
+if (True == v__3513473_37) {
+Obj v__3513474_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3513475_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513474_37);
+coraReturn(co, v__3513475_37);
 return;
 } else {
-Obj v__3513128_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
+Obj v__3513131_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
 R[1] = v_rules;
-R[2] = v__3513128_37;
+R[2] = v__3513131_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_rules);
 return;
 }
 }
@@ -2921,72 +3057,72 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513127_37 = R[1];
-if (True == v__3513127_37) {
-Obj v__3513471_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513129_37 = v__3513471_37;
-Obj v__3513472_37 = primGenSym(co);
-Obj v__3513130_37 = v__3513472_37;
-R[1] = v__3513129_37;
-R[2] = v__3513130_37;
+Obj v__3513130_37 = R[1];
+if (True == v__3513130_37) {
+Obj v__3513476_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513132_37 = v__3513476_37;
+Obj v__3513477_37 = primGenSym(co);
+Obj v__3513133_37 = v__3513477_37;
+R[1] = v__3513132_37;
+R[2] = v__3513133_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 111)), closureRef(R[0], 1), v__3513130_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3513133_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 case 1:
 {
-Obj v__3513478_37= co->res;
-Obj v__3513132_37 = R[1];
-Obj v__3513130_37 = R[2];
-Obj v__3513133_37 = v__3513478_37;
-Obj v__3513479_37 = makeCons(co->gc, v__3513133_37, Nil);
-Obj v__3513480_37 = makeCons(co->gc, Nil, v__3513479_37);
-Obj v__3513481_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513480_37);
-Obj v__3513482_37 = makeCons(co->gc, v__3513132_37, Nil);
-Obj v__3513483_37 = makeCons(co->gc, v__3513481_37, v__3513482_37);
-Obj v__3513484_37 = makeCons(co->gc, v__3513130_37, v__3513483_37);
-Obj v__3513485_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513484_37);
-coraReturn(co, v__3513485_37);
+Obj v__3513483_37= co->res;
+Obj v__3513135_37 = R[1];
+Obj v__3513133_37 = R[2];
+Obj v__3513136_37 = v__3513483_37;
+Obj v__3513484_37 = makeCons(co->gc, v__3513136_37, Nil);
+Obj v__3513485_37 = makeCons(co->gc, Nil, v__3513484_37);
+Obj v__3513486_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513485_37);
+Obj v__3513487_37 = makeCons(co->gc, v__3513135_37, Nil);
+Obj v__3513488_37 = makeCons(co->gc, v__3513486_37, v__3513487_37);
+Obj v__3513489_37 = makeCons(co->gc, v__3513133_37, v__3513488_37);
+Obj v__3513490_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513489_37);
+coraReturn(co, v__3513490_37);
 return;
 }
 case 2:
 {
-Obj v__3513475_37= co->res;
-Obj v__3513130_37 = R[1];
-Obj v__3513132_37 = v__3513475_37;
-Obj v__3513476_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513477_37 = PRIM_CDR(v__3513476_37);
-R[1] = v__3513132_37;
-R[2] = v__3513130_37;
+Obj v__3513480_37= co->res;
+Obj v__3513133_37 = R[1];
+Obj v__3513135_37 = v__3513480_37;
+Obj v__3513481_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3513482_37 = PRIM_CDR(v__3513481_37);
+R[1] = v__3513135_37;
+R[2] = v__3513133_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), closureRef(R[0], 0), v__3513477_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3513482_37);
 return;
 }
 case 3:
 {
-Obj v__3513474_37= co->res;
-Obj v__3513131_37 = R[1];
-Obj v__3513130_37 = R[2];
-R[1] = v__3513130_37;
+Obj v__3513479_37= co->res;
+Obj v__3513134_37 = R[1];
+Obj v__3513133_37 = R[2];
+R[1] = v__3513133_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), v__3513474_37, closureRef(R[0], 0), v__3513131_37, v__3513130_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3513479_37, closureRef(R[0], 0), v__3513134_37, v__3513133_37);
 return;
 }
 case 4:
 {
-Obj v__3513473_37= co->res;
-Obj v__3513129_37 = R[1];
-Obj v__3513130_37 = R[2];
-Obj v__3513131_37 = v__3513473_37;
-R[1] = v__3513131_37;
-R[2] = v__3513130_37;
+Obj v__3513478_37= co->res;
+Obj v__3513132_37 = R[1];
+Obj v__3513133_37 = R[2];
+Obj v__3513134_37 = v__3513478_37;
+R[1] = v__3513134_37;
+R[2] = v__3513133_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 138)), v__3513129_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3513132_37);
 return;
 }
 }
@@ -2998,36 +3134,36 @@ case 0:
 {
 Obj v_rules = R[1];
 Obj v_cc = R[2];
-Obj v__3513455_37 = PRIM_CDR(v_rules);
-Obj v__3513456_37 = PRIM_CAR(v__3513455_37);
-Obj v__3513122_37 = v__3513456_37;
-Obj v__3513125_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513122_37);
-R[1] = v__3513122_37;
-R[2] = v__3513125_37;
+Obj v__3513460_37 = PRIM_CDR(v_rules);
+Obj v__3513461_37 = PRIM_CAR(v__3513460_37);
+Obj v__3513125_37 = v__3513461_37;
+Obj v__3513128_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513125_37);
+R[1] = v__3513125_37;
+R[2] = v__3513128_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v__3513122_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3513125_37);
 return;
 }
 case 1:
 {
-Obj v__3513464_37= co->res;
-Obj v__3513122_37 = R[1];
-Obj v__3513125_37 = R[2];
-if (True == v__3513464_37) {
-Obj v__3513465_37 = PRIM_CAR(v__3513122_37);
-Obj v__3513466_37 = PRIM_EQ(v__3513465_37, getBinding(co, packageID, 110).name);
-if (True == v__3513466_37) {
+Obj v__3513469_37= co->res;
+Obj v__3513125_37 = R[1];
+Obj v__3513128_37 = R[2];
+if (True == v__3513469_37) {
+Obj v__3513470_37 = PRIM_CAR(v__3513125_37);
+Obj v__3513471_37 = PRIM_EQ(v__3513470_37, getBinding(co, packageID, 111).name);
+if (True == v__3513471_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513125_37, True);
+coraCall1(co, v__3513128_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513125_37, False);
+coraCall1(co, v__3513128_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513125_37, False);
+coraCall1(co, v__3513128_37, False);
 return;
 }
 }
@@ -3038,10 +3174,10 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513124_37 = R[1];
-if (True == v__3513124_37) {
+Obj v__3513127_37 = R[1];
+if (True == v__3513127_37) {
 saveCont(co, clofun39, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
 } else {
 coraReturn(co, closureRef(R[0], 1));
@@ -3050,22 +3186,22 @@ return;
 }
 case 1:
 {
-Obj v__3513458_37= co->res;
-Obj v__3513457_37 = R[1];
-Obj v__3513459_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3513460_37 = makeCons(co->gc, v__3513459_37, Nil);
-Obj v__3513461_37 = makeCons(co->gc, v__3513458_37, v__3513460_37);
-Obj v__3513462_37 = makeCons(co->gc, v__3513457_37, v__3513461_37);
-Obj v__3513463_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513462_37);
-coraReturn(co, v__3513463_37);
+Obj v__3513463_37= co->res;
+Obj v__3513462_37 = R[1];
+Obj v__3513464_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3513465_37 = makeCons(co->gc, v__3513464_37, Nil);
+Obj v__3513466_37 = makeCons(co->gc, v__3513463_37, v__3513465_37);
+Obj v__3513467_37 = makeCons(co->gc, v__3513462_37, v__3513466_37);
+Obj v__3513468_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513467_37);
+coraReturn(co, v__3513468_37);
 return;
 }
 case 2:
 {
-Obj v__3513457_37= co->res;
-R[1] = v__3513457_37;
+Obj v__3513462_37= co->res;
+R[1] = v__3513462_37;
 saveCont(co, clofun39, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 1));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
 }
 }
@@ -3089,83 +3225,83 @@ return;
 }
 case 1:
 {
-Obj v__3513453_37= co->res;
+Obj v__3513458_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), v__3513453_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3513458_37);
 return;
 }
 case 2:
 {
-Obj v__3513440_37= co->res;
+Obj v__3513445_37= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v__3513440_37) {
-Obj v__3513441_37 = PRIM_CAR(v_pat);
-Obj v__3513442_37 = PRIM_EQ(v__3513441_37, getBinding(co, packageID, 139).name);
-if (True == v__3513442_37) {
-Obj v__3513443_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513444_37 = makeCons(co->gc, v_pat, v__3513443_37);
-Obj v__3513445_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513444_37);
-Obj v__3513446_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513447_37 = makeCons(co->gc, v__3513446_37, Nil);
-Obj v__3513448_37 = makeCons(co->gc, v_body, v__3513447_37);
-Obj v__3513449_37 = makeCons(co->gc, v__3513445_37, v__3513448_37);
-Obj v__3513450_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513449_37);
-coraReturn(co, v__3513450_37);
+if (True == v__3513445_37) {
+Obj v__3513446_37 = PRIM_CAR(v_pat);
+Obj v__3513447_37 = PRIM_EQ(v__3513446_37, getBinding(co, packageID, 140).name);
+if (True == v__3513447_37) {
+Obj v__3513448_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513449_37 = makeCons(co->gc, v_pat, v__3513448_37);
+Obj v__3513450_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513449_37);
+Obj v__3513451_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513452_37 = makeCons(co->gc, v__3513451_37, Nil);
+Obj v__3513453_37 = makeCons(co->gc, v_body, v__3513452_37);
+Obj v__3513454_37 = makeCons(co->gc, v__3513450_37, v__3513453_37);
+Obj v__3513455_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513454_37);
+coraReturn(co, v__3513455_37);
 return;
 } else {
-Obj v__3513451_37 = PRIM_CAR(v_pat);
-Obj v__3513452_37 = PRIM_EQ(v__3513451_37, getBinding(co, packageID, 152).name);
-if (True == v__3513452_37) {
+Obj v__3513456_37 = PRIM_CAR(v_pat);
+Obj v__3513457_37 = PRIM_EQ(v__3513456_37, getBinding(co, packageID, 153).name);
+if (True == v__3513457_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v_pat, v_expr, v_body, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v_pat, v_expr, v_body, v_cc);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), makeCString(co->gc, "match fail "), v_pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v_pat);
 return;
 }
 }
 case 3:
 {
-Obj v__3513425_37= co->res;
+Obj v__3513430_37= co->res;
 Obj v_expr = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_pat = R[4];
-if (True == v__3513425_37) {
-Obj v__3513426_37 = PRIM_EQ(v_pat, v_expr);
-if (True == v__3513426_37) {
+if (True == v__3513430_37) {
+Obj v__3513431_37 = PRIM_EQ(v_pat, v_expr);
+if (True == v__3513431_37) {
 coraReturn(co, v_body);
 return;
 } else {
-Obj v__3513427_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513428_37 = makeCons(co->gc, v_pat, v__3513427_37);
-Obj v__3513429_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3513428_37);
-Obj v__3513430_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513431_37 = makeCons(co->gc, v__3513430_37, Nil);
-Obj v__3513432_37 = makeCons(co->gc, v_body, v__3513431_37);
-Obj v__3513433_37 = makeCons(co->gc, v__3513429_37, v__3513432_37);
-Obj v__3513434_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513433_37);
-coraReturn(co, v__3513434_37);
+Obj v__3513432_37 = makeCons(co->gc, v_expr, Nil);
+Obj v__3513433_37 = makeCons(co->gc, v_pat, v__3513432_37);
+Obj v__3513434_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513433_37);
+Obj v__3513435_37 = makeCons(co->gc, v_cc, Nil);
+Obj v__3513436_37 = makeCons(co->gc, v__3513435_37, Nil);
+Obj v__3513437_37 = makeCons(co->gc, v_body, v__3513436_37);
+Obj v__3513438_37 = makeCons(co->gc, v__3513434_37, v__3513437_37);
+Obj v__3513439_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513438_37);
+coraReturn(co, v__3513439_37);
 return;
 }
 } else {
-Obj v__3513435_37 = primIsSymbol(v_pat);
-if (True == v__3513435_37) {
-Obj v__3513436_37 = makeCons(co->gc, v_body, Nil);
-Obj v__3513437_37 = makeCons(co->gc, v_expr, v__3513436_37);
-Obj v__3513438_37 = makeCons(co->gc, v_pat, v__3513437_37);
-Obj v__3513439_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513438_37);
-coraReturn(co, v__3513439_37);
+Obj v__3513440_37 = primIsSymbol(v_pat);
+if (True == v__3513440_37) {
+Obj v__3513441_37 = makeCons(co->gc, v_body, Nil);
+Obj v__3513442_37 = makeCons(co->gc, v_expr, v__3513441_37);
+Obj v__3513443_37 = makeCons(co->gc, v_pat, v__3513442_37);
+Obj v__3513444_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513443_37);
+coraReturn(co, v__3513444_37);
 return;
 } else {
 R[1] = v_expr;
@@ -3173,7 +3309,7 @@ R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_pat;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_pat);
 return;
 }
 }
@@ -3188,17 +3324,17 @@ case 0:
 Obj v_x = R[1];
 R[1] = v_x;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v_x);
 return;
 }
 case 1:
 {
-Obj v__3513422_37= co->res;
+Obj v__3513427_37= co->res;
 Obj v_x = R[1];
-if (True == v__3513422_37) {
-Obj v__3513423_37 = primIsSymbol(v_x);
-Obj v__3513424_37 = primNot(v__3513423_37);
-if (True == v__3513424_37) {
+if (True == v__3513427_37) {
+Obj v__3513428_37 = primIsSymbol(v_x);
+Obj v__3513429_37 = primNot(v__3513428_37);
+if (True == v__3513429_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3226,51 +3362,51 @@ R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_pat);
 return;
 }
 case 1:
 {
-Obj v__3513401_37= co->res;
-Obj v__3513115_37 = R[1];
+Obj v__3513406_37= co->res;
+Obj v__3513118_37 = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v__3513116_37 = v__3513401_37;
-Obj v__3513119_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513115_37, v__3513116_37, v_expr, v_body, v_cc);
-Obj v__3513418_37 = PRIM_ISCONS(v_expr);
-if (True == v__3513418_37) {
-Obj v__3513419_37 = PRIM_CAR(v_expr);
-Obj v__3513420_37 = PRIM_EQ(v__3513419_37, getBinding(co, packageID, 152).name);
-if (True == v__3513420_37) {
+Obj v__3513119_37 = v__3513406_37;
+Obj v__3513122_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513118_37, v__3513119_37, v_expr, v_body, v_cc);
+Obj v__3513423_37 = PRIM_ISCONS(v_expr);
+if (True == v__3513423_37) {
+Obj v__3513424_37 = PRIM_CAR(v_expr);
+Obj v__3513425_37 = PRIM_EQ(v__3513424_37, getBinding(co, packageID, 153).name);
+if (True == v__3513425_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513119_37, True);
+coraCall1(co, v__3513122_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513119_37, False);
+coraCall1(co, v__3513122_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513119_37, False);
+coraCall1(co, v__3513122_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513400_37= co->res;
+Obj v__3513405_37= co->res;
 Obj v_pat = R[1];
 Obj v_body = R[2];
 Obj v_cc = R[3];
 Obj v_expr = R[4];
-Obj v__3513115_37 = v__3513400_37;
-R[1] = v__3513115_37;
+Obj v__3513118_37 = v__3513405_37;
+R[1] = v__3513118_37;
 R[2] = v_body;
 R[3] = v_cc;
 R[4] = v_expr;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_pat);
 return;
 }
 }
@@ -3280,72 +3416,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513118_37 = R[1];
-if (True == v__3513118_37) {
+Obj v__3513121_37 = R[1];
+if (True == v__3513121_37) {
 saveCont(co, clofun35, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3513405_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513406_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513405_37);
-Obj v__3513407_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513408_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513407_37);
-Obj v__3513409_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513410_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513409_37);
-R[1] = v__3513408_37;
-R[2] = v__3513406_37;
+Obj v__3513410_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513411_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3513410_37);
+Obj v__3513412_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513413_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513412_37);
+Obj v__3513414_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3513415_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513414_37);
+R[1] = v__3513413_37;
+R[2] = v__3513411_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513410_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3513415_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3513404_37= co->res;
-Obj v__3513120_37 = R[1];
+Obj v__3513409_37= co->res;
+Obj v__3513123_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513120_37, v__3513404_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3513123_37, v__3513409_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3513403_37= co->res;
-Obj v__3513120_37 = R[1];
-Obj v__3513121_37 = v__3513403_37;
-R[1] = v__3513120_37;
+Obj v__3513408_37= co->res;
+Obj v__3513123_37 = R[1];
+Obj v__3513124_37 = v__3513408_37;
+R[1] = v__3513123_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 1), v__3513121_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3513124_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3513402_37= co->res;
-Obj v__3513120_37 = v__3513402_37;
-R[1] = v__3513120_37;
+Obj v__3513407_37= co->res;
+Obj v__3513123_37 = v__3513407_37;
+R[1] = v__3513123_37;
 saveCont(co, clofun35, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3513412_37= co->res;
-Obj v__3513406_37 = R[1];
-Obj v__3513413_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3513414_37 = makeCons(co->gc, v__3513413_37, Nil);
-Obj v__3513415_37 = makeCons(co->gc, v__3513412_37, v__3513414_37);
-Obj v__3513416_37 = makeCons(co->gc, v__3513406_37, v__3513415_37);
-Obj v__3513417_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513416_37);
-coraReturn(co, v__3513417_37);
+Obj v__3513417_37= co->res;
+Obj v__3513411_37 = R[1];
+Obj v__3513418_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3513419_37 = makeCons(co->gc, v__3513418_37, Nil);
+Obj v__3513420_37 = makeCons(co->gc, v__3513417_37, v__3513419_37);
+Obj v__3513421_37 = makeCons(co->gc, v__3513411_37, v__3513420_37);
+Obj v__3513422_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513421_37);
+coraReturn(co, v__3513422_37);
 return;
 }
 case 5:
 {
-Obj v__3513411_37= co->res;
-Obj v__3513408_37 = R[1];
-Obj v__3513406_37 = R[2];
-R[1] = v__3513406_37;
+Obj v__3513416_37= co->res;
+Obj v__3513413_37 = R[1];
+Obj v__3513411_37 = R[2];
+R[1] = v__3513411_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 117)), closureRef(R[0], 0), v__3513408_37, v__3513411_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3513413_37, v__3513416_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3356,9 +3492,9 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513398_37 = PRIM_CDR(v_exp);
+Obj v__3513403_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513398_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513403_37);
 return;
 }
 }
@@ -3369,36 +3505,36 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_pat = R[1];
-Obj v__3513388_37 = PRIM_CDR(v_pat);
+Obj v__3513393_37 = PRIM_CDR(v_pat);
 R[1] = v_pat;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513388_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513393_37);
 return;
 }
 case 1:
 {
-Obj v__3513393_37= co->res;
-Obj v__3513391_37 = R[1];
-Obj v__3513394_37 = makeCons(co->gc, v__3513393_37, Nil);
-Obj v__3513395_37 = makeCons(co->gc, v__3513391_37, v__3513394_37);
-Obj v__3513396_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513395_37);
-coraReturn(co, v__3513396_37);
+Obj v__3513398_37= co->res;
+Obj v__3513396_37 = R[1];
+Obj v__3513399_37 = makeCons(co->gc, v__3513398_37, Nil);
+Obj v__3513400_37 = makeCons(co->gc, v__3513396_37, v__3513399_37);
+Obj v__3513401_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513400_37);
+coraReturn(co, v__3513401_37);
 return;
 }
 case 2:
 {
-Obj v__3513389_37= co->res;
+Obj v__3513394_37= co->res;
 Obj v_pat = R[1];
-if (True == v__3513389_37) {
-Obj v__3513390_37 = PRIM_CAR(v_pat);
-coraReturn(co, v__3513390_37);
+if (True == v__3513394_37) {
+Obj v__3513395_37 = PRIM_CAR(v_pat);
+coraReturn(co, v__3513395_37);
 return;
 } else {
-Obj v__3513391_37 = PRIM_CAR(v_pat);
-Obj v__3513392_37 = PRIM_CDR(v_pat);
-R[1] = v__3513391_37;
+Obj v__3513396_37 = PRIM_CAR(v_pat);
+Obj v__3513397_37 = PRIM_CDR(v_pat);
+R[1] = v__3513396_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 120)), v__3513392_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513397_37);
 return;
 }
 }
@@ -3410,13 +3546,13 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513385_37 = PRIM_EQ(v_x, True);
-if (True == v__3513385_37) {
+Obj v__3513390_37 = PRIM_EQ(v_x, True);
+if (True == v__3513390_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513386_37 = PRIM_EQ(v_x, False);
-if (True == v__3513386_37) {
+Obj v__3513391_37 = PRIM_EQ(v_x, False);
+if (True == v__3513391_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3433,9 +3569,9 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513383_37 = PRIM_CDR(v_exp);
+Obj v__3513388_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513383_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3513388_37);
 return;
 }
 }
@@ -3446,41 +3582,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v__3513371_37 = PRIM_EQ(Nil, v_l);
-if (True == v__3513371_37) {
+Obj v__3513376_37 = PRIM_EQ(Nil, v_l);
+if (True == v__3513376_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513372_37 = PRIM_CAR(v_l);
-Obj v__3513373_37 = PRIM_EQ(v__3513372_37, False);
-if (True == v__3513373_37) {
+Obj v__3513377_37 = PRIM_CAR(v_l);
+Obj v__3513378_37 = PRIM_EQ(v__3513377_37, False);
+if (True == v__3513378_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513374_37 = PRIM_CDR(v_l);
+Obj v__3513379_37 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 123)), v__3513374_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3513379_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513375_37= co->res;
+Obj v__3513380_37= co->res;
 Obj v_l = R[1];
-Obj v__3513114_37 = v__3513375_37;
-Obj v__3513376_37 = PRIM_EQ(v__3513114_37, False);
-if (True == v__3513376_37) {
+Obj v__3513117_37 = v__3513380_37;
+Obj v__3513381_37 = PRIM_EQ(v__3513117_37, False);
+if (True == v__3513381_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513377_37 = PRIM_CAR(v_l);
-Obj v__3513378_37 = makeCons(co->gc, False, Nil);
-Obj v__3513379_37 = makeCons(co->gc, v__3513114_37, v__3513378_37);
-Obj v__3513380_37 = makeCons(co->gc, v__3513377_37, v__3513379_37);
-Obj v__3513381_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513380_37);
-coraReturn(co, v__3513381_37);
+Obj v__3513382_37 = PRIM_CAR(v_l);
+Obj v__3513383_37 = makeCons(co->gc, False, Nil);
+Obj v__3513384_37 = makeCons(co->gc, v__3513117_37, v__3513383_37);
+Obj v__3513385_37 = makeCons(co->gc, v__3513382_37, v__3513384_37);
+Obj v__3513386_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513385_37);
+coraReturn(co, v__3513386_37);
 return;
 }
 }
@@ -3492,9 +3628,9 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513369_37 = PRIM_CDR(v_exp);
+Obj v__3513374_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513369_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3513374_37);
 return;
 }
 }
@@ -3505,41 +3641,41 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_l = R[1];
-Obj v__3513357_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513357_37) {
+Obj v__3513362_37 = PRIM_EQ(v_l, Nil);
+if (True == v__3513362_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513358_37 = PRIM_CAR(v_l);
-Obj v__3513359_37 = PRIM_EQ(v__3513358_37, True);
-if (True == v__3513359_37) {
+Obj v__3513363_37 = PRIM_CAR(v_l);
+Obj v__3513364_37 = PRIM_EQ(v__3513363_37, True);
+if (True == v__3513364_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513360_37 = PRIM_CDR(v_l);
+Obj v__3513365_37 = PRIM_CDR(v_l);
 R[1] = v_l;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 125)), v__3513360_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3513365_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513361_37= co->res;
+Obj v__3513366_37= co->res;
 Obj v_l = R[1];
-Obj v__3513113_37 = v__3513361_37;
-Obj v__3513362_37 = PRIM_EQ(v__3513113_37, True);
-if (True == v__3513362_37) {
+Obj v__3513116_37 = v__3513366_37;
+Obj v__3513367_37 = PRIM_EQ(v__3513116_37, True);
+if (True == v__3513367_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513363_37 = PRIM_CAR(v_l);
-Obj v__3513364_37 = makeCons(co->gc, v__3513113_37, Nil);
-Obj v__3513365_37 = makeCons(co->gc, True, v__3513364_37);
-Obj v__3513366_37 = makeCons(co->gc, v__3513363_37, v__3513365_37);
-Obj v__3513367_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513366_37);
-coraReturn(co, v__3513367_37);
+Obj v__3513368_37 = PRIM_CAR(v_l);
+Obj v__3513369_37 = makeCons(co->gc, v__3513116_37, Nil);
+Obj v__3513370_37 = makeCons(co->gc, True, v__3513369_37);
+Obj v__3513371_37 = makeCons(co->gc, v__3513368_37, v__3513370_37);
+Obj v__3513372_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513371_37);
+coraReturn(co, v__3513372_37);
 return;
 }
 }
@@ -3551,54 +3687,54 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513343_37 = PRIM_CDR(v_exp);
-Obj v__3513344_37 = PRIM_EQ(Nil, v__3513343_37);
-if (True == v__3513344_37) {
-Obj v__3513345_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3513346_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513345_37);
-coraReturn(co, v__3513346_37);
+Obj v__3513348_37 = PRIM_CDR(v_exp);
+Obj v__3513349_37 = PRIM_EQ(Nil, v__3513348_37);
+if (True == v__3513349_37) {
+Obj v__3513350_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3513351_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513350_37);
+coraReturn(co, v__3513351_37);
 return;
 } else {
 R[1] = v_exp;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 }
 case 1:
 {
-Obj v__3513350_37= co->res;
-Obj v__3513349_37 = R[1];
-Obj v__3513348_37 = R[2];
-Obj v__3513351_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513350_37);
-Obj v__3513352_37 = makeCons(co->gc, v__3513351_37, Nil);
-Obj v__3513353_37 = makeCons(co->gc, v__3513349_37, v__3513352_37);
-Obj v__3513354_37 = makeCons(co->gc, v__3513348_37, v__3513353_37);
-Obj v__3513355_37 = makeCons(co->gc, getBinding(co, packageID, 126).name, v__3513354_37);
-coraReturn(co, v__3513355_37);
+Obj v__3513355_37= co->res;
+Obj v__3513354_37 = R[1];
+Obj v__3513353_37 = R[2];
+Obj v__3513356_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513355_37);
+Obj v__3513357_37 = makeCons(co->gc, v__3513356_37, Nil);
+Obj v__3513358_37 = makeCons(co->gc, v__3513354_37, v__3513357_37);
+Obj v__3513359_37 = makeCons(co->gc, v__3513353_37, v__3513358_37);
+Obj v__3513360_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513359_37);
+coraReturn(co, v__3513360_37);
 return;
 }
 case 2:
 {
-Obj v__3513349_37= co->res;
+Obj v__3513354_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513348_37 = R[2];
-R[1] = v__3513349_37;
-R[2] = v__3513348_37;
+Obj v__3513353_37 = R[2];
+R[1] = v__3513354_37;
+R[2] = v__3513353_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513347_37= co->res;
+Obj v__3513352_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513112_37 = v__3513347_37;
-Obj v__3513348_37 = PRIM_CAR(v__3513112_37);
+Obj v__3513115_37 = v__3513352_37;
+Obj v__3513353_37 = PRIM_CAR(v__3513115_37);
 R[1] = v_exp;
-R[2] = v__3513348_37;
+R[2] = v__3513353_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v__3513112_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513115_37);
 return;
 }
 }
@@ -3609,9 +3745,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513341_37 = PRIM_CDR(v_exp);
+Obj v__3513346_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513341_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3513346_37);
 return;
 }
 }
@@ -3622,60 +3758,60 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513329_37 = PRIM_CDR(v_exp);
+Obj v__3513334_37 = PRIM_CDR(v_exp);
 R[1] = v_exp;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513329_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513334_37);
 return;
 }
 case 1:
 {
-Obj v__3513335_37= co->res;
-Obj v__3513333_37 = R[1];
-Obj v__3513332_37 = R[2];
-Obj v__3513336_37 = makeCons(co->gc, v__3513335_37, Nil);
-Obj v__3513337_37 = makeCons(co->gc, v__3513333_37, v__3513336_37);
-Obj v__3513338_37 = makeCons(co->gc, v__3513332_37, v__3513337_37);
-Obj v__3513339_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513338_37);
-coraReturn(co, v__3513339_37);
+Obj v__3513340_37= co->res;
+Obj v__3513338_37 = R[1];
+Obj v__3513337_37 = R[2];
+Obj v__3513341_37 = makeCons(co->gc, v__3513340_37, Nil);
+Obj v__3513342_37 = makeCons(co->gc, v__3513338_37, v__3513341_37);
+Obj v__3513343_37 = makeCons(co->gc, v__3513337_37, v__3513342_37);
+Obj v__3513344_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513343_37);
+coraReturn(co, v__3513344_37);
 return;
 }
 case 2:
 {
-Obj v__3513334_37= co->res;
-Obj v__3513333_37 = R[1];
-Obj v__3513332_37 = R[2];
-R[1] = v__3513333_37;
-R[2] = v__3513332_37;
+Obj v__3513339_37= co->res;
+Obj v__3513338_37 = R[1];
+Obj v__3513337_37 = R[2];
+R[1] = v__3513338_37;
+R[2] = v__3513337_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3513334_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3513339_37);
 return;
 }
 case 3:
 {
-Obj v__3513333_37= co->res;
+Obj v__3513338_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513332_37 = R[2];
-R[1] = v__3513333_37;
-R[2] = v__3513332_37;
+Obj v__3513337_37 = R[2];
+R[1] = v__3513338_37;
+R[2] = v__3513337_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
 return;
 }
 case 4:
 {
-Obj v__3513330_37= co->res;
+Obj v__3513335_37= co->res;
 Obj v_exp = R[1];
-if (True == v__3513330_37) {
-Obj v__3513331_37 = PRIM_CAR(v_exp);
-coraReturn(co, v__3513331_37);
+if (True == v__3513335_37) {
+Obj v__3513336_37 = PRIM_CAR(v_exp);
+coraReturn(co, v__3513336_37);
 return;
 } else {
-Obj v__3513332_37 = PRIM_CAR(v_exp);
+Obj v__3513337_37 = PRIM_CAR(v_exp);
 R[1] = v_exp;
-R[2] = v__3513332_37;
+R[2] = v__3513337_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 }
@@ -3687,9 +3823,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513326_37 = PRIM_ISCONS(v_x);
-Obj v__3513327_37 = primNot(v__3513326_37);
-coraReturn(co, v__3513327_37);
+Obj v__3513331_37 = PRIM_ISCONS(v_x);
+Obj v__3513332_37 = primNot(v__3513331_37);
+coraReturn(co, v__3513332_37);
 return;
 }
 }
@@ -3701,17 +3837,17 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_l = R[2];
-Obj v__3513321_37 = PRIM_ISCONS(v_l);
-if (True == v__3513321_37) {
-Obj v__3513322_37 = PRIM_CAR(v_l);
-Obj v__3513323_37 = PRIM_EQ(v__3513322_37, v_x);
-if (True == v__3513323_37) {
+Obj v__3513326_37 = PRIM_ISCONS(v_l);
+if (True == v__3513326_37) {
+Obj v__3513327_37 = PRIM_CAR(v_l);
+Obj v__3513328_37 = PRIM_EQ(v__3513327_37, v_x);
+if (True == v__3513328_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513324_37 = PRIM_CDR(v_l);
+Obj v__3513329_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 132)), v_x, v__3513324_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, v__3513329_37);
 return;
 }
 } else {
@@ -3729,42 +3865,42 @@ case 0:
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513313_37= co->res;
-Obj v__3513312_37 = R[1];
-Obj v__3513311_37 = R[2];
-Obj v__3513314_37 = makeCons(co->gc, v__3513313_37, Nil);
-Obj v__3513315_37 = makeCons(co->gc, v__3513312_37, v__3513314_37);
-Obj v__3513316_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513315_37);
-Obj v__3513317_37 = makeCons(co->gc, v__3513316_37, Nil);
-Obj v__3513318_37 = makeCons(co->gc, v__3513311_37, v__3513317_37);
-Obj v__3513319_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3513318_37);
-coraReturn(co, v__3513319_37);
+Obj v__3513318_37= co->res;
+Obj v__3513317_37 = R[1];
+Obj v__3513316_37 = R[2];
+Obj v__3513319_37 = makeCons(co->gc, v__3513318_37, Nil);
+Obj v__3513320_37 = makeCons(co->gc, v__3513317_37, v__3513319_37);
+Obj v__3513321_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513320_37);
+Obj v__3513322_37 = makeCons(co->gc, v__3513321_37, Nil);
+Obj v__3513323_37 = makeCons(co->gc, v__3513316_37, v__3513322_37);
+Obj v__3513324_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513323_37);
+coraReturn(co, v__3513324_37);
 return;
 }
 case 2:
 {
-Obj v__3513312_37= co->res;
+Obj v__3513317_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513311_37 = R[2];
-R[1] = v__3513312_37;
-R[2] = v__3513311_37;
+Obj v__3513316_37 = R[2];
+R[1] = v__3513317_37;
+R[2] = v__3513316_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513311_37= co->res;
+Obj v__3513316_37= co->res;
 Obj v_exp = R[1];
 R[1] = v_exp;
-R[2] = v__3513311_37;
+R[2] = v__3513316_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -3775,9 +3911,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513309_37 = PRIM_CDR(v_exp);
+Obj v__3513314_37 = PRIM_CDR(v_exp);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513309_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3513314_37);
 return;
 }
 }
@@ -3790,43 +3926,43 @@ case 0:
 Obj v_exp = R[1];
 R[1] = v_exp;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 }
 case 1:
 {
-Obj v__3513301_37= co->res;
-Obj v__3513300_37 = R[1];
-Obj v__3513299_37 = R[2];
-Obj v__3513302_37 = makeCons(co->gc, v__3513300_37, v__3513301_37);
-Obj v__3513303_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513302_37);
-Obj v__3513304_37 = makeCons(co->gc, v__3513303_37, Nil);
-Obj v__3513305_37 = makeCons(co->gc, v__3513299_37, v__3513304_37);
-Obj v__3513306_37 = makeCons(co->gc, getBinding(co, packageID, 144).name, v__3513305_37);
-coraReturn(co, v__3513306_37);
+Obj v__3513306_37= co->res;
+Obj v__3513305_37 = R[1];
+Obj v__3513304_37 = R[2];
+Obj v__3513307_37 = makeCons(co->gc, v__3513305_37, v__3513306_37);
+Obj v__3513308_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513307_37);
+Obj v__3513309_37 = makeCons(co->gc, v__3513308_37, Nil);
+Obj v__3513310_37 = makeCons(co->gc, v__3513304_37, v__3513309_37);
+Obj v__3513311_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3513310_37);
+coraReturn(co, v__3513311_37);
 return;
 }
 case 2:
 {
-Obj v__3513300_37= co->res;
+Obj v__3513305_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513299_37 = R[2];
-R[1] = v__3513300_37;
-R[2] = v__3513299_37;
+Obj v__3513304_37 = R[2];
+R[1] = v__3513305_37;
+R[2] = v__3513304_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
 return;
 }
 case 3:
 {
-Obj v__3513297_37= co->res;
+Obj v__3513302_37= co->res;
 Obj v_exp = R[1];
-Obj v__3513298_37 = makeCons(co->gc, v__3513297_37, Nil);
-Obj v__3513299_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3513298_37);
+Obj v__3513303_37 = makeCons(co->gc, v__3513302_37, Nil);
+Obj v__3513304_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513303_37);
 R[1] = v_exp;
-R[2] = v__3513299_37;
+R[2] = v__3513304_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 }
@@ -3837,32 +3973,32 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513279_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513279_37) {
-Obj v__3513280_37 = PRIM_CAR(v_exp);
-Obj v__3513281_37 = PRIM_EQ(v__3513280_37, globalRef(co, getBinding(co, packageID, 145)));
-if (True == v__3513281_37) {
-Obj v__3513282_37 = PRIM_CDR(v_exp);
-coraReturn(co, v__3513282_37);
+Obj v__3513284_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513284_37) {
+Obj v__3513285_37 = PRIM_CAR(v_exp);
+Obj v__3513286_37 = PRIM_EQ(v__3513285_37, globalRef(co, getBinding(co, packageID, 146)));
+if (True == v__3513286_37) {
+Obj v__3513287_37 = PRIM_CDR(v_exp);
+coraReturn(co, v__3513287_37);
 return;
 } else {
-Obj v__3513283_37 = PRIM_CAR(v_exp);
-Obj v__3513284_37 = PRIM_EQ(v__3513283_37, getBinding(co, packageID, 140).name);
-if (True == v__3513284_37) {
+Obj v__3513288_37 = PRIM_CAR(v_exp);
+Obj v__3513289_37 = PRIM_EQ(v__3513288_37, getBinding(co, packageID, 141).name);
+if (True == v__3513289_37) {
 R[1] = v_exp;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 160)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
 return;
 } else {
-Obj v__3513291_37 = PRIM_CAR(v_exp);
-Obj v__3513292_37 = PRIM_EQ(v__3513291_37, getBinding(co, packageID, 139).name);
-if (True == v__3513292_37) {
+Obj v__3513296_37 = PRIM_CAR(v_exp);
+Obj v__3513297_37 = PRIM_EQ(v__3513296_37, getBinding(co, packageID, 140).name);
+if (True == v__3513297_37) {
 coraReturn(co, v_exp);
 return;
 } else {
 R[1] = v_exp;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v_exp);
 return;
 }
 }
@@ -3874,38 +4010,38 @@ return;
 }
 case 1:
 {
-Obj v__3513287_37= co->res;
-Obj v__3513285_37 = R[1];
-Obj v__3513288_37 = makeCons(co->gc, v__3513287_37, Nil);
-Obj v__3513289_37 = makeCons(co->gc, v__3513285_37, v__3513288_37);
-Obj v__3513290_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513289_37);
-coraReturn(co, v__3513290_37);
+Obj v__3513292_37= co->res;
+Obj v__3513290_37 = R[1];
+Obj v__3513293_37 = makeCons(co->gc, v__3513292_37, Nil);
+Obj v__3513294_37 = makeCons(co->gc, v__3513290_37, v__3513293_37);
+Obj v__3513295_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513294_37);
+coraReturn(co, v__3513295_37);
 return;
 }
 case 2:
 {
-Obj v__3513286_37= co->res;
-Obj v__3513285_37 = R[1];
-R[1] = v__3513285_37;
+Obj v__3513291_37= co->res;
+Obj v__3513290_37 = R[1];
+R[1] = v__3513290_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v__3513286_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3513291_37);
 return;
 }
 case 3:
 {
-Obj v__3513285_37= co->res;
+Obj v__3513290_37= co->res;
 Obj v_exp = R[1];
-R[1] = v__3513285_37;
+R[1] = v__3513290_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
 return;
 }
 case 4:
 {
-Obj v__3513294_37= co->res;
+Obj v__3513299_37= co->res;
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513294_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513299_37);
 return;
 }
 }
@@ -3916,14 +4052,14 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp1 = R[1];
-Obj v__3513293_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v__3513293_37) {
+Obj v__3513298_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
+if (True == v__3513298_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 147)), globalRef(co, getBinding(co, packageID, 141)), v_exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 141)), v_exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp1);
 return;
 }
 }
@@ -3936,7 +4072,7 @@ case 0:
 {
 Obj v_exp = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), v_exp, globalRef(co, getBinding(co, packageID, 146)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v_exp, globalRef(co, getBinding(co, packageID, 147)));
 return;
 }
 }
@@ -3948,14 +4084,14 @@ case 0:
 {
 Obj v_exp = R[1];
 Obj v_macros = R[2];
-Obj v__3513269_37 = PRIM_EQ(Nil, v_macros);
-if (True == v__3513269_37) {
+Obj v__3513274_37 = PRIM_EQ(Nil, v_macros);
+if (True == v__3513274_37) {
 coraReturn(co, v_exp);
 return;
 } else {
-Obj v__3513276_37 = PRIM_CAR(v_macros);
+Obj v__3513281_37 = PRIM_CAR(v_macros);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513276_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513281_37);
 return;
 }
 }
@@ -3967,24 +4103,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_item = R[1];
-Obj v__3513111_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3513272_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513272_37) {
-Obj v__3513273_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513274_37 = PRIM_CAR(v_item);
-Obj v__3513275_37 = PRIM_EQ(v__3513273_37, v__3513274_37);
-if (True == v__3513275_37) {
+Obj v__3513114_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3513277_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3513277_37) {
+Obj v__3513278_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3513279_37 = PRIM_CAR(v_item);
+Obj v__3513280_37 = PRIM_EQ(v__3513278_37, v__3513279_37);
+if (True == v__3513280_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513111_37, True);
+coraCall1(co, v__3513114_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513111_37, False);
+coraCall1(co, v__3513114_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513111_37, False);
+coraCall1(co, v__3513114_37, False);
 return;
 }
 }
@@ -3995,16 +4131,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513110_37 = R[1];
-if (True == v__3513110_37) {
-Obj v__3513270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3513113_37 = R[1];
+if (True == v__3513113_37) {
+Obj v__3513275_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3513270_37, closureRef(R[0], 1));
+coraCall1(co, v__3513275_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513271_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3513276_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 143)), closureRef(R[0], 1), v__3513271_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3513276_37);
 return;
 }
 }
@@ -4017,10 +4153,10 @@ case 0:
 {
 Obj v_n = R[1];
 Obj v_v = R[2];
-Obj v__3513265_37 = makeCons(co->gc, v_n, v_v);
-Obj v__3513266_37 = makeCons(co->gc, v__3513265_37, globalRef(co, getBinding(co, packageID, 146)));
-Obj v__3513267_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513266_37);
-coraReturn(co, v__3513267_37);
+Obj v__3513270_37 = makeCons(co->gc, v_n, v_v);
+Obj v__3513271_37 = makeCons(co->gc, v__3513270_37, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3513272_37 = primSet(co, getBinding(co, packageID, 147).name, v__3513271_37);
+coraReturn(co, v__3513272_37);
 return;
 }
 }
@@ -4033,7 +4169,7 @@ case 0:
 Obj v_f = R[1];
 Obj v_l = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), Nil, v_f, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v_f, v_l);
 return;
 }
 }
@@ -4046,31 +4182,31 @@ case 0:
 Obj v_res = R[1];
 Obj v_f = R[2];
 Obj v_l = R[3];
-Obj v__3513255_37 = PRIM_ISCONS(v_l);
-if (True == v__3513255_37) {
-Obj v__3513256_37 = PRIM_CAR(v_l);
+Obj v__3513260_37 = PRIM_ISCONS(v_l);
+if (True == v__3513260_37) {
+Obj v__3513261_37 = PRIM_CAR(v_l);
 R[1] = v_res;
 R[2] = v_l;
 R[3] = v_f;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v__3513256_37);
+coraCall1(co, v_f, v__3513261_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 149)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
 return;
 }
 }
 case 1:
 {
-Obj v__3513257_37= co->res;
+Obj v__3513262_37= co->res;
 Obj v_res = R[1];
 Obj v_l = R[2];
 Obj v_f = R[3];
-Obj v__3513258_37 = makeCons(co->gc, v__3513257_37, v_res);
-Obj v__3513259_37 = PRIM_CDR(v_l);
+Obj v__3513263_37 = makeCons(co->gc, v__3513262_37, v_res);
+Obj v__3513264_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 148)), v__3513258_37, v_f, v__3513259_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3513263_37, v_f, v__3513264_37);
 return;
 }
 }
@@ -4082,13 +4218,13 @@ case 0:
 {
 Obj v_res = R[1];
 Obj v_l = R[2];
-Obj v__3513248_37 = PRIM_ISCONS(v_l);
-if (True == v__3513248_37) {
-Obj v__3513249_37 = PRIM_CAR(v_l);
-Obj v__3513250_37 = makeCons(co->gc, v__3513249_37, v_res);
-Obj v__3513251_37 = PRIM_CDR(v_l);
+Obj v__3513253_37 = PRIM_ISCONS(v_l);
+if (True == v__3513253_37) {
+Obj v__3513254_37 = PRIM_CAR(v_l);
+Obj v__3513255_37 = makeCons(co->gc, v__3513254_37, v_res);
+Obj v__3513256_37 = PRIM_CDR(v_l);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 150)), v__3513250_37, v__3513251_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3513255_37, v__3513256_37);
 return;
 } else {
 coraReturn(co, v_res);
@@ -4103,8 +4239,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513246_37 = PRIM_ISCONS(v_x);
-coraReturn(co, v__3513246_37);
+Obj v__3513251_37 = PRIM_ISCONS(v_x);
+coraReturn(co, v__3513251_37);
 return;
 }
 }
@@ -4115,13 +4251,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_exp = R[1];
-Obj v__3513238_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513238_37) {
-Obj v__3513239_37 = PRIM_CAR(v_exp);
-Obj v__3513240_37 = PRIM_CDR(v_exp);
-R[1] = v__3513239_37;
+Obj v__3513243_37 = PRIM_ISCONS(v_exp);
+if (True == v__3513243_37) {
+Obj v__3513244_37 = PRIM_CAR(v_exp);
+Obj v__3513245_37 = PRIM_CDR(v_exp);
+R[1] = v__3513244_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 153)), v__3513240_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3513245_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4130,12 +4266,12 @@ return;
 }
 case 1:
 {
-Obj v__3513241_37= co->res;
-Obj v__3513239_37 = R[1];
-Obj v__3513242_37 = makeCons(co->gc, v__3513241_37, Nil);
-Obj v__3513243_37 = makeCons(co->gc, v__3513239_37, v__3513242_37);
-Obj v__3513244_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3513243_37);
-coraReturn(co, v__3513244_37);
+Obj v__3513246_37= co->res;
+Obj v__3513244_37 = R[1];
+Obj v__3513247_37 = makeCons(co->gc, v__3513246_37, Nil);
+Obj v__3513248_37 = makeCons(co->gc, v__3513244_37, v__3513247_37);
+Obj v__3513249_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513248_37);
+coraReturn(co, v__3513249_37);
 return;
 }
 }
@@ -4146,10 +4282,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513234_37 = PRIM_CDR(v_x);
-Obj v__3513235_37 = PRIM_CDR(v__3513234_37);
-Obj v__3513236_37 = PRIM_CDR(v__3513235_37);
-coraReturn(co, v__3513236_37);
+Obj v__3513239_37 = PRIM_CDR(v_x);
+Obj v__3513240_37 = PRIM_CDR(v__3513239_37);
+Obj v__3513241_37 = PRIM_CDR(v__3513240_37);
+coraReturn(co, v__3513241_37);
 return;
 }
 }
@@ -4160,11 +4296,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513229_37 = PRIM_CDR(v_x);
-Obj v__3513230_37 = PRIM_CDR(v__3513229_37);
-Obj v__3513231_37 = PRIM_CDR(v__3513230_37);
-Obj v__3513232_37 = PRIM_CAR(v__3513231_37);
-coraReturn(co, v__3513232_37);
+Obj v__3513234_37 = PRIM_CDR(v_x);
+Obj v__3513235_37 = PRIM_CDR(v__3513234_37);
+Obj v__3513236_37 = PRIM_CDR(v__3513235_37);
+Obj v__3513237_37 = PRIM_CAR(v__3513236_37);
+coraReturn(co, v__3513237_37);
 return;
 }
 }
@@ -4175,10 +4311,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513225_37 = PRIM_CDR(v_x);
-Obj v__3513226_37 = PRIM_CDR(v__3513225_37);
-Obj v__3513227_37 = PRIM_CAR(v__3513226_37);
-coraReturn(co, v__3513227_37);
+Obj v__3513230_37 = PRIM_CDR(v_x);
+Obj v__3513231_37 = PRIM_CDR(v__3513230_37);
+Obj v__3513232_37 = PRIM_CAR(v__3513231_37);
+coraReturn(co, v__3513232_37);
 return;
 }
 }
@@ -4189,9 +4325,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513222_37 = PRIM_CDR(v_x);
-Obj v__3513223_37 = PRIM_CDR(v__3513222_37);
-coraReturn(co, v__3513223_37);
+Obj v__3513227_37 = PRIM_CDR(v_x);
+Obj v__3513228_37 = PRIM_CDR(v__3513227_37);
+coraReturn(co, v__3513228_37);
 return;
 }
 }
@@ -4202,9 +4338,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513219_37 = PRIM_CAR(v_x);
-Obj v__3513220_37 = PRIM_CDR(v__3513219_37);
-coraReturn(co, v__3513220_37);
+Obj v__3513224_37 = PRIM_CAR(v_x);
+Obj v__3513225_37 = PRIM_CDR(v__3513224_37);
+coraReturn(co, v__3513225_37);
 return;
 }
 }
@@ -4215,9 +4351,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513216_37 = PRIM_CAR(v_x);
-Obj v__3513217_37 = PRIM_CAR(v__3513216_37);
-coraReturn(co, v__3513217_37);
+Obj v__3513221_37 = PRIM_CAR(v_x);
+Obj v__3513222_37 = PRIM_CAR(v__3513221_37);
+coraReturn(co, v__3513222_37);
 return;
 }
 }
@@ -4228,9 +4364,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513213_37 = PRIM_CDR(v_x);
-Obj v__3513214_37 = PRIM_CAR(v__3513213_37);
-coraReturn(co, v__3513214_37);
+Obj v__3513218_37 = PRIM_CDR(v_x);
+Obj v__3513219_37 = PRIM_CAR(v__3513218_37);
+coraReturn(co, v__3513219_37);
 return;
 }
 }
@@ -4241,8 +4377,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3513211_37 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v__3513211_37);
+Obj v__3513216_37 = PRIM_EQ(v_x, Nil);
+coraReturn(co, v__3513216_37);
 return;
 }
 }
diff --git a/init.cora b/init.cora
index 735ab7d..259e193 100644
--- a/init.cora
+++ b/init.cora
@@ -221,15 +221,25 @@
 		    (list 'let cc (list 'lambda () rest)
 			  curr)))))))
 
-(defun cora/init#rewrite-match (exp)
-  (let value (macroexpand (cadr exp))
-       rules (cddr exp)
-       (if (and (cons? value)
-		(not (= 'cons (car value))))
-	   (let val (gensym)
-		(list 'let val value (cora/init#match-helper val rules)))
-	   (cora/init#match-helper value rules))))
+;; evaluate each part of the matched value once, before any pattern is bound
+(defun cora/init#bind-match-value (value k)
+  (cond
+    ((and (cons? value) (= (car value) 'cons))
+     (cora/init#bind-match-value
+      (cadr value)
+      (lambda (x)
+	(cora/init#bind-match-value
+	 (caddr value)
+	 (lambda (y) (k (list 'cons x y)))))))
+    ((and (atom? value) (not (symbol? value))) (k value))
+    (true (let val (gensym)
+	       (list 'let val value (k val))))))
 
+(defun cora/init#rewrite-match (exp)
+  (let rules (cddr exp)
+       (cora/init#bind-match-value
+	(macroexpand (cadr exp))
+	(lambda (value) (cora/init#match-helper value rules)))))
 
 (defmacro match (exp)
   (cora/init#rewrite-match exp))
@@ -297,8 +307,7 @@
     (let nargs (cora/init#rules-arg-count body)
       (let args (cora/init#gen-paramenters nargs)
         (list 'defun (cadr exp) args
-              (cons 'match (cons (cons 'list args)
-                                 body)))))))
+              (cora/init#match-helper (rcons args) body))))))
 
 (defun cora/init#rewrite-namespace (exp)
   (cora/init#parse () "" () exp))
diff --git a/lib/toc.c b/lib/toc.c
index c96d95d..41e5931 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -301,152 +301,152 @@ return;
 }
 case 1:
 {
-Obj v__3519186_37= co->res;
-Obj v__3519192_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v__3519198_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun113, 2, 0));
-Obj v__3519220_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun115, 3, 0));
-Obj v__3519244_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun117, 4, 0));
-Obj v__3519256_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun120, 3, 0));
-Obj v__3519297_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun125, 1, 0));
-Obj v__3519336_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun128, 4, 0));
-Obj v__3519388_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj v__3519389_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun134, 2, 0));
-Obj v__3519403_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun142, 1, 0));
-Obj v__3519404_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v__3519417_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun144, 1, 0));
-Obj v__3519427_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun145, 2, 0));
-coraReturn(co, v__3519427_37);
+Obj v__3519275_37= co->res;
+Obj v__3519281_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v__3519287_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3519309_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun115, 3, 0));
+Obj v__3519333_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun117, 4, 0));
+Obj v__3519345_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun120, 3, 0));
+Obj v__3519386_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun125, 1, 0));
+Obj v__3519425_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun128, 4, 0));
+Obj v__3519477_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj v__3519478_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun134, 2, 0));
+Obj v__3519492_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun142, 1, 0));
+Obj v__3519493_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v__3519506_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun144, 1, 0));
+Obj v__3519516_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun145, 2, 0));
+coraReturn(co, v__3519516_37);
 return;
 }
 case 2:
 {
-Obj v__3517783_37= co->res;
-Obj v__3517784_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj v__3517799_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3517805_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3517815_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3517816_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3517823_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3517824_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3517825_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517824_37);
-Obj v__3517826_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517825_37);
-Obj v__3517827_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3517828_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517827_37);
-Obj v__3517829_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517828_37);
-Obj v__3517830_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3517831_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517830_37);
-Obj v__3517832_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517831_37);
-Obj v__3517833_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3517834_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517833_37);
-Obj v__3517835_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517834_37);
-Obj v__3517836_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3517837_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517836_37);
-Obj v__3517838_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517837_37);
-Obj v__3517839_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3517840_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517839_37);
-Obj v__3517841_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517840_37);
-Obj v__3517842_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3517843_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517842_37);
-Obj v__3517844_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517843_37);
-Obj v__3517845_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3517846_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517845_37);
-Obj v__3517847_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517846_37);
-Obj v__3517848_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3517849_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517848_37);
-Obj v__3517850_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517849_37);
-Obj v__3517851_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3517852_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517851_37);
-Obj v__3517853_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517852_37);
-Obj v__3517854_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3517855_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517854_37);
-Obj v__3517856_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517855_37);
-Obj v__3517857_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3517858_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517857_37);
-Obj v__3517859_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517858_37);
-Obj v__3517860_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3517861_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517860_37);
-Obj v__3517862_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517861_37);
-Obj v__3517863_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3517864_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517863_37);
-Obj v__3517865_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517864_37);
-Obj v__3517866_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3517867_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517866_37);
-Obj v__3517868_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517867_37);
-Obj v__3517869_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3517870_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517869_37);
-Obj v__3517871_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3517870_37);
-Obj v__3517872_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3517873_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517872_37);
-Obj v__3517874_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3517873_37);
-Obj v__3517875_37 = makeCons(co->gc, v__3517874_37, Nil);
-Obj v__3517876_37 = makeCons(co->gc, v__3517871_37, v__3517875_37);
-Obj v__3517877_37 = makeCons(co->gc, v__3517868_37, v__3517876_37);
-Obj v__3517878_37 = makeCons(co->gc, v__3517865_37, v__3517877_37);
-Obj v__3517879_37 = makeCons(co->gc, v__3517862_37, v__3517878_37);
-Obj v__3517880_37 = makeCons(co->gc, v__3517859_37, v__3517879_37);
-Obj v__3517881_37 = makeCons(co->gc, v__3517856_37, v__3517880_37);
-Obj v__3517882_37 = makeCons(co->gc, v__3517853_37, v__3517881_37);
-Obj v__3517883_37 = makeCons(co->gc, v__3517850_37, v__3517882_37);
-Obj v__3517884_37 = makeCons(co->gc, v__3517847_37, v__3517883_37);
-Obj v__3517885_37 = makeCons(co->gc, v__3517844_37, v__3517884_37);
-Obj v__3517886_37 = makeCons(co->gc, v__3517841_37, v__3517885_37);
-Obj v__3517887_37 = makeCons(co->gc, v__3517838_37, v__3517886_37);
-Obj v__3517888_37 = makeCons(co->gc, v__3517835_37, v__3517887_37);
-Obj v__3517889_37 = makeCons(co->gc, v__3517832_37, v__3517888_37);
-Obj v__3517890_37 = makeCons(co->gc, v__3517829_37, v__3517889_37);
-Obj v__3517891_37 = makeCons(co->gc, v__3517826_37, v__3517890_37);
-Obj v__3517892_37 = primSet(co, getBinding(co, packageID, 122).name, v__3517891_37);
-Obj v__3517896_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3517899_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3517902_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3517907_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3518122_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun22, 3, 0));
-Obj v__3518133_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj v__3518144_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj v__3518205_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun33, 1, 0));
-Obj v__3518380_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun43, 1, 0));
-Obj v__3518453_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun46, 2, 0));
-Obj v__3518456_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun47, 1, 0));
-Obj v__3518593_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3518616_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun59, 3, 0));
-Obj v__3518693_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun63, 2, 0));
-Obj v__3518724_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun67, 3, 0));
-Obj v__3518730_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun70, 4, 0));
-Obj v__3518735_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun72, 2, 0));
-Obj v__3518744_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun74, 1, 0));
-Obj v__3518795_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun76, 2, 0));
-Obj v__3518803_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj v__3518810_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun78, 2, 0));
-Obj v__3518815_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun79, 2, 0));
-Obj v__3518821_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun80, 3, 0));
-Obj v__3518822_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v__3518829_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj v__3518836_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun85, 5, 0));
-Obj v__3519123_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj v__3519137_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun100, 5, 0));
-Obj v__3519159_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun102, 5, 0));
-Obj v__3519161_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v__3519165_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v__3519166_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj v__3519167_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v__3519168_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v__3519169_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj v__3519176_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 1, 0));
-Obj v__3519183_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj v__3517872_37= co->res;
+Obj v__3517873_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj v__3517888_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3517894_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3517904_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3517905_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3517912_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3517913_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3517914_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517913_37);
+Obj v__3517915_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517914_37);
+Obj v__3517916_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3517917_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517916_37);
+Obj v__3517918_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517917_37);
+Obj v__3517919_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3517920_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517919_37);
+Obj v__3517921_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517920_37);
+Obj v__3517922_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3517923_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517922_37);
+Obj v__3517924_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517923_37);
+Obj v__3517925_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3517926_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517925_37);
+Obj v__3517927_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517926_37);
+Obj v__3517928_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3517929_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517928_37);
+Obj v__3517930_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517929_37);
+Obj v__3517931_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3517932_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517931_37);
+Obj v__3517933_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517932_37);
+Obj v__3517934_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3517935_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517934_37);
+Obj v__3517936_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517935_37);
+Obj v__3517937_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3517938_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517937_37);
+Obj v__3517939_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517938_37);
+Obj v__3517940_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3517941_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517940_37);
+Obj v__3517942_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517941_37);
+Obj v__3517943_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3517944_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517943_37);
+Obj v__3517945_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517944_37);
+Obj v__3517946_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3517947_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517946_37);
+Obj v__3517948_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517947_37);
+Obj v__3517949_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3517950_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517949_37);
+Obj v__3517951_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517950_37);
+Obj v__3517952_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3517953_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517952_37);
+Obj v__3517954_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517953_37);
+Obj v__3517955_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3517956_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517955_37);
+Obj v__3517957_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517956_37);
+Obj v__3517958_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3517959_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517958_37);
+Obj v__3517960_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3517959_37);
+Obj v__3517961_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3517962_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517961_37);
+Obj v__3517963_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3517962_37);
+Obj v__3517964_37 = makeCons(co->gc, v__3517963_37, Nil);
+Obj v__3517965_37 = makeCons(co->gc, v__3517960_37, v__3517964_37);
+Obj v__3517966_37 = makeCons(co->gc, v__3517957_37, v__3517965_37);
+Obj v__3517967_37 = makeCons(co->gc, v__3517954_37, v__3517966_37);
+Obj v__3517968_37 = makeCons(co->gc, v__3517951_37, v__3517967_37);
+Obj v__3517969_37 = makeCons(co->gc, v__3517948_37, v__3517968_37);
+Obj v__3517970_37 = makeCons(co->gc, v__3517945_37, v__3517969_37);
+Obj v__3517971_37 = makeCons(co->gc, v__3517942_37, v__3517970_37);
+Obj v__3517972_37 = makeCons(co->gc, v__3517939_37, v__3517971_37);
+Obj v__3517973_37 = makeCons(co->gc, v__3517936_37, v__3517972_37);
+Obj v__3517974_37 = makeCons(co->gc, v__3517933_37, v__3517973_37);
+Obj v__3517975_37 = makeCons(co->gc, v__3517930_37, v__3517974_37);
+Obj v__3517976_37 = makeCons(co->gc, v__3517927_37, v__3517975_37);
+Obj v__3517977_37 = makeCons(co->gc, v__3517924_37, v__3517976_37);
+Obj v__3517978_37 = makeCons(co->gc, v__3517921_37, v__3517977_37);
+Obj v__3517979_37 = makeCons(co->gc, v__3517918_37, v__3517978_37);
+Obj v__3517980_37 = makeCons(co->gc, v__3517915_37, v__3517979_37);
+Obj v__3517981_37 = primSet(co, getBinding(co, packageID, 122).name, v__3517980_37);
+Obj v__3517985_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3517988_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3517991_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3517996_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3518211_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun22, 3, 0));
+Obj v__3518222_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj v__3518233_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj v__3518294_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3518469_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun43, 1, 0));
+Obj v__3518542_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun46, 2, 0));
+Obj v__3518545_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun47, 1, 0));
+Obj v__3518682_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3518705_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun59, 3, 0));
+Obj v__3518782_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun63, 2, 0));
+Obj v__3518813_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun67, 3, 0));
+Obj v__3518819_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun70, 4, 0));
+Obj v__3518824_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun72, 2, 0));
+Obj v__3518833_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3518884_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun76, 2, 0));
+Obj v__3518892_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj v__3518899_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun78, 2, 0));
+Obj v__3518904_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj v__3518910_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun80, 3, 0));
+Obj v__3518911_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3518918_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj v__3518925_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj v__3519212_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj v__3519226_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj v__3519248_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun102, 5, 0));
+Obj v__3519250_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v__3519254_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3519255_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj v__3519256_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v__3519257_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3519258_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj v__3519265_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 1, 0));
+Obj v__3519272_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun110, 2, 0));
 saveCont(co, clofun146, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun111, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3517782_37= co->res;
+Obj v__3517871_37= co->res;
 saveCont(co, clofun146, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3517781_37= co->res;
+Obj v__3517870_37= co->res;
 saveCont(co, clofun146, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -460,92 +460,92 @@ case 0:
 {
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v__3519418_37 = primGenSym(co);
-Obj v__3517778_37 = v__3519418_37;
-Obj v__3519419_37 = primSet(co, v__3517778_37, Nil);
+Obj v__3519507_37 = primGenSym(co);
+Obj v__3517867_37 = v__3519507_37;
+Obj v__3519508_37 = primSet(co, v__3517867_37, Nil);
 R[1] = v_from;
 R[2] = v_to;
-R[3] = v__3517778_37;
+R[3] = v__3517867_37;
 saveCont(co, clofun145, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3517778_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3517867_37);
 return;
 }
 case 1:
 {
-Obj v__3519426_37= co->res;
-Obj v__3517780_37 = R[1];
+Obj v__3519515_37= co->res;
+Obj v__3517869_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3517780_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3517869_37);
 return;
 }
 case 2:
 {
-Obj v__3519425_37= co->res;
-Obj v__3517779_37 = R[1];
-Obj v__3517780_37 = R[2];
-R[1] = v__3517780_37;
+Obj v__3519514_37= co->res;
+Obj v__3517868_37 = R[1];
+Obj v__3517869_37 = R[2];
+R[1] = v__3517869_37;
 saveCont(co, clofun145, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3517780_37, v__3517779_37, v__3519425_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3517869_37, v__3517868_37, v__3519514_37);
 return;
 }
 case 3:
 {
-Obj v__3519424_37= co->res;
-Obj v__3517778_37 = R[1];
-Obj v__3517779_37 = R[2];
-Obj v__3517780_37 = v__3519424_37;
-R[1] = v__3517779_37;
-R[2] = v__3517780_37;
+Obj v__3519513_37= co->res;
+Obj v__3517867_37 = R[1];
+Obj v__3517868_37 = R[2];
+Obj v__3517869_37 = v__3519513_37;
+R[1] = v__3517868_37;
+R[2] = v__3517869_37;
 saveCont(co, clofun145, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517778_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517867_37);
 return;
 }
 case 4:
 {
-Obj v__3519423_37= co->res;
+Obj v__3519512_37= co->res;
 Obj v_to = R[1];
-Obj v__3517778_37 = R[2];
-Obj v__3517779_37 = v__3519423_37;
-R[1] = v__3517778_37;
-R[2] = v__3517779_37;
+Obj v__3517867_37 = R[2];
+Obj v__3517868_37 = v__3519512_37;
+R[1] = v__3517867_37;
+R[2] = v__3517868_37;
 saveCont(co, clofun145, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
 return;
 }
 case 5:
 {
-Obj v__3519422_37= co->res;
-Obj v__3519420_37 = R[1];
+Obj v__3519511_37= co->res;
+Obj v__3519509_37 = R[1];
 Obj v_to = R[2];
-Obj v__3517778_37 = R[3];
+Obj v__3517867_37 = R[3];
 R[1] = v_to;
-R[2] = v__3517778_37;
+R[2] = v__3517867_37;
 saveCont(co, clofun145, 4, R);
-coraCall1(co, v__3519420_37, v__3519422_37);
+coraCall1(co, v__3519509_37, v__3519511_37);
 return;
 }
 case 6:
 {
-Obj v__3519421_37= co->res;
-Obj v__3519420_37 = R[1];
+Obj v__3519510_37= co->res;
+Obj v__3519509_37 = R[1];
 Obj v_to = R[2];
-Obj v__3517778_37 = R[3];
-R[1] = v__3519420_37;
+Obj v__3517867_37 = R[3];
+R[1] = v__3519509_37;
 R[2] = v_to;
-R[3] = v__3517778_37;
+R[3] = v__3517867_37;
 saveCont(co, clofun145, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519421_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519510_37);
 return;
 }
 case 7:
 {
-Obj v__3519420_37= co->res;
+Obj v__3519509_37= co->res;
 Obj v_from = R[1];
 Obj v_to = R[2];
-Obj v__3517778_37 = R[3];
-R[1] = v__3519420_37;
+Obj v__3517867_37 = R[3];
+R[1] = v__3519509_37;
 R[2] = v_to;
-R[3] = v__3517778_37;
+R[3] = v__3517867_37;
 saveCont(co, clofun145, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
 return;
@@ -564,90 +564,90 @@ return;
 }
 case 1:
 {
-Obj v__3519412_37= co->res;
-Obj v__3517774_37 = R[1];
+Obj v__3519501_37= co->res;
+Obj v__3517863_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517863_37);
 return;
 }
 case 2:
 {
-Obj v__3519411_37= co->res;
-Obj v__3517774_37 = R[1];
-R[1] = v__3517774_37;
+Obj v__3519500_37= co->res;
+Obj v__3517863_37 = R[1];
+R[1] = v__3517863_37;
 saveCont(co, clofun144, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517863_37);
 return;
 }
 case 3:
 {
-Obj v__3519414_37= co->res;
-Obj v__3517774_37 = R[1];
+Obj v__3519503_37= co->res;
+Obj v__3517863_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517863_37);
 return;
 }
 case 4:
 {
-Obj v__3519413_37= co->res;
-Obj v__3517774_37 = R[1];
-R[1] = v__3517774_37;
+Obj v__3519502_37= co->res;
+Obj v__3517863_37 = R[1];
+R[1] = v__3517863_37;
 saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517863_37);
 return;
 }
 case 5:
 {
-Obj v__3519416_37= co->res;
-Obj v__3517774_37 = R[1];
+Obj v__3519505_37= co->res;
+Obj v__3517863_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517863_37);
 return;
 }
 case 6:
 {
-Obj v__3519415_37= co->res;
-Obj v__3517774_37 = R[1];
-R[1] = v__3517774_37;
+Obj v__3519504_37= co->res;
+Obj v__3517863_37 = R[1];
+R[1] = v__3517863_37;
 saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517863_37);
 return;
 }
 case 7:
 {
-Obj v__3519408_37= co->res;
-Obj v__3517777_37 = R[1];
-Obj v__3517774_37 = R[2];
-if (True == v__3519408_37) {
-Obj v__3519409_37 = PRIM_CAR(v__3517774_37);
-Obj v__3519410_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519409_37);
-if (True == v__3519410_37) {
-R[1] = v__3517774_37;
+Obj v__3519497_37= co->res;
+Obj v__3517866_37 = R[1];
+Obj v__3517863_37 = R[2];
+if (True == v__3519497_37) {
+Obj v__3519498_37 = PRIM_CAR(v__3517863_37);
+Obj v__3519499_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519498_37);
+if (True == v__3519499_37) {
+R[1] = v__3517863_37;
 saveCont(co, clofun144, 2, R);
-coraCall1(co, v__3517777_37, True);
+coraCall1(co, v__3517866_37, True);
 return;
 } else {
-R[1] = v__3517774_37;
+R[1] = v__3517863_37;
 saveCont(co, clofun144, 4, R);
-coraCall1(co, v__3517777_37, False);
+coraCall1(co, v__3517866_37, False);
 return;
 }
 } else {
-R[1] = v__3517774_37;
+R[1] = v__3517863_37;
 saveCont(co, clofun144, 6, R);
-coraCall1(co, v__3517777_37, False);
+coraCall1(co, v__3517866_37, False);
 return;
 }
 }
 case 8:
 {
-Obj v__3519405_37= co->res;
-Obj v__3517774_37 = v__3519405_37;
-Obj v__3517777_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3517774_37);
-R[1] = v__3517777_37;
-R[2] = v__3517774_37;
+Obj v__3519494_37= co->res;
+Obj v__3517863_37 = v__3519494_37;
+Obj v__3517866_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3517863_37);
+R[1] = v__3517866_37;
+R[2] = v__3517863_37;
 saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3517863_37);
 return;
 }
 }
@@ -657,14 +657,14 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517776_37 = R[1];
-if (True == v__3517776_37) {
-Obj v__3519406_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v__3519406_37);
+Obj v__3517865_37 = R[1];
+if (True == v__3517865_37) {
+Obj v__3519495_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v__3519495_37);
 return;
 } else {
-Obj v__3519407_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v__3519407_37);
+Obj v__3519496_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v__3519496_37);
 return;
 }
 }
@@ -675,27 +675,27 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517508_37 = R[1];
-Obj v__3517770_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3517508_37);
-Obj v__3519398_37 = PRIM_ISCONS(v__3517508_37);
-if (True == v__3519398_37) {
-Obj v__3519399_37 = PRIM_CAR(v__3517508_37);
-Obj v__3519400_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519399_37);
-if (True == v__3519400_37) {
-Obj v__3519401_37 = PRIM_CDR(v__3517508_37);
-Obj v__3517773_37 = v__3519401_37;
-Obj v__3519402_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3517773_37);
+Obj v__3517597_37 = R[1];
+Obj v__3517859_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3517597_37);
+Obj v__3519487_37 = PRIM_ISCONS(v__3517597_37);
+if (True == v__3519487_37) {
+Obj v__3519488_37 = PRIM_CAR(v__3517597_37);
+Obj v__3519489_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519488_37);
+if (True == v__3519489_37) {
+Obj v__3519490_37 = PRIM_CDR(v__3517597_37);
+Obj v__3517862_37 = v__3519490_37;
+Obj v__3519491_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3517862_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519402_37, makeNative(co->gc, 2, clofun141, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519491_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517770_37);
+coraCall0(co, v__3517859_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517770_37);
+coraCall0(co, v__3517859_37);
 return;
 }
 }
@@ -731,26 +731,26 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517771_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
-Obj v__3519393_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519393_37) {
-Obj v__3519394_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519395_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519394_37);
-if (True == v__3519395_37) {
-Obj v__3519396_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517772_37 = v__3519396_37;
-Obj v__3519397_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517772_37);
+Obj v__3517860_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
+Obj v__3519482_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519482_37) {
+Obj v__3519483_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519484_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519483_37);
+if (True == v__3519484_37) {
+Obj v__3519485_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517861_37 = v__3519485_37;
+Obj v__3519486_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517861_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519397_37, makeNative(co->gc, 2, clofun138, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519486_37, makeNative(co->gc, 2, clofun138, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517771_37);
+coraCall0(co, v__3517860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517771_37);
+coraCall0(co, v__3517860_37);
 return;
 }
 }
@@ -786,9 +786,9 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519390_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3519479_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519390_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519479_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
 return;
 }
 }
@@ -806,9 +806,9 @@ return;
 }
 case 1:
 {
-Obj v__3519391_37= co->res;
-Obj v__3519392_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519391_37);
-coraReturn(co, v__3519392_37);
+Obj v__3519480_37= co->res;
+Obj v__3519481_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519480_37);
+coraReturn(co, v__3519481_37);
 return;
 }
 }
@@ -836,50 +836,50 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517501_37 = R[1];
-Obj v__3517502_37 = R[2];
-Obj v__3517759_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3517501_37, v__3517502_37);
-Obj v__3519376_37 = PRIM_ISCONS(v__3517501_37);
-if (True == v__3519376_37) {
-Obj v__3519377_37 = PRIM_CAR(v__3517501_37);
-Obj v__3519378_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519377_37);
-if (True == v__3519378_37) {
-Obj v__3519379_37 = PRIM_CDR(v__3517501_37);
-Obj v__3519380_37 = PRIM_ISCONS(v__3519379_37);
-if (True == v__3519380_37) {
-Obj v__3519381_37 = PRIM_CDR(v__3517501_37);
-Obj v__3519382_37 = PRIM_CAR(v__3519381_37);
-Obj v__3517768_37 = v__3519382_37;
-Obj v__3519383_37 = PRIM_CDR(v__3517501_37);
-Obj v__3519384_37 = PRIM_CDR(v__3519383_37);
-Obj v__3517769_37 = v__3519384_37;
-R[1] = v__3517768_37;
+Obj v__3517590_37 = R[1];
+Obj v__3517591_37 = R[2];
+Obj v__3517848_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3517590_37, v__3517591_37);
+Obj v__3519465_37 = PRIM_ISCONS(v__3517590_37);
+if (True == v__3519465_37) {
+Obj v__3519466_37 = PRIM_CAR(v__3517590_37);
+Obj v__3519467_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519466_37);
+if (True == v__3519467_37) {
+Obj v__3519468_37 = PRIM_CDR(v__3517590_37);
+Obj v__3519469_37 = PRIM_ISCONS(v__3519468_37);
+if (True == v__3519469_37) {
+Obj v__3519470_37 = PRIM_CDR(v__3517590_37);
+Obj v__3519471_37 = PRIM_CAR(v__3519470_37);
+Obj v__3517857_37 = v__3519471_37;
+Obj v__3519472_37 = PRIM_CDR(v__3517590_37);
+Obj v__3519473_37 = PRIM_CDR(v__3519472_37);
+Obj v__3517858_37 = v__3519473_37;
+R[1] = v__3517857_37;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517769_37, v__3517502_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517858_37, v__3517591_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3517848_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3517848_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517759_37);
+coraCall0(co, v__3517848_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519385_37= co->res;
-Obj v__3517768_37 = R[1];
-Obj v__3519386_37 = makeCons(co->gc, v__3517768_37, v__3519385_37);
-Obj v__3519387_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3519386_37);
-coraReturn(co, v__3519387_37);
+Obj v__3519474_37= co->res;
+Obj v__3517857_37 = R[1];
+Obj v__3519475_37 = makeCons(co->gc, v__3517857_37, v__3519474_37);
+Obj v__3519476_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3519475_37);
+coraReturn(co, v__3519476_37);
 return;
 }
 }
@@ -889,69 +889,69 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517760_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519355_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519355_37) {
-Obj v__3519356_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519357_37 = PRIM_ISCONS(v__3519356_37);
-if (True == v__3519357_37) {
-Obj v__3519358_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519359_37 = PRIM_CAR(v__3519358_37);
-Obj v__3519360_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519359_37);
-if (True == v__3519360_37) {
-Obj v__3519361_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519362_37 = PRIM_CDR(v__3519361_37);
-Obj v__3519363_37 = PRIM_ISCONS(v__3519362_37);
-if (True == v__3519363_37) {
-Obj v__3519364_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519365_37 = PRIM_CDR(v__3519364_37);
-Obj v__3519366_37 = PRIM_CAR(v__3519365_37);
-Obj v__3517766_37 = v__3519366_37;
-Obj v__3519367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519368_37 = PRIM_CDR(v__3519367_37);
-Obj v__3519369_37 = PRIM_CDR(v__3519368_37);
-Obj v__3519370_37 = PRIM_EQ(Nil, v__3519369_37);
-if (True == v__3519370_37) {
-Obj v__3519371_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517767_37 = v__3519371_37;
-Obj v__3519372_37 = makeCons(co->gc, v__3517766_37, Nil);
-Obj v__3519373_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519372_37);
-R[1] = v__3519373_37;
+Obj v__3517849_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519444_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519444_37) {
+Obj v__3519445_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519446_37 = PRIM_ISCONS(v__3519445_37);
+if (True == v__3519446_37) {
+Obj v__3519447_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519448_37 = PRIM_CAR(v__3519447_37);
+Obj v__3519449_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519448_37);
+if (True == v__3519449_37) {
+Obj v__3519450_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519451_37 = PRIM_CDR(v__3519450_37);
+Obj v__3519452_37 = PRIM_ISCONS(v__3519451_37);
+if (True == v__3519452_37) {
+Obj v__3519453_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519454_37 = PRIM_CDR(v__3519453_37);
+Obj v__3519455_37 = PRIM_CAR(v__3519454_37);
+Obj v__3517855_37 = v__3519455_37;
+Obj v__3519456_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519457_37 = PRIM_CDR(v__3519456_37);
+Obj v__3519458_37 = PRIM_CDR(v__3519457_37);
+Obj v__3519459_37 = PRIM_EQ(Nil, v__3519458_37);
+if (True == v__3519459_37) {
+Obj v__3519460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517856_37 = v__3519460_37;
+Obj v__3519461_37 = makeCons(co->gc, v__3517855_37, Nil);
+Obj v__3519462_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519461_37);
+R[1] = v__3519462_37;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517767_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517856_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3517849_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3517849_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3517849_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3517849_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517760_37);
+coraCall0(co, v__3517849_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519374_37= co->res;
-Obj v__3519373_37 = R[1];
-Obj v__3519375_37 = makeCons(co->gc, v__3519373_37, v__3519374_37);
-coraReturn(co, v__3519375_37);
+Obj v__3519463_37= co->res;
+Obj v__3519462_37 = R[1];
+Obj v__3519464_37 = makeCons(co->gc, v__3519462_37, v__3519463_37);
+coraReturn(co, v__3519464_37);
 return;
 }
 }
@@ -961,48 +961,48 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517761_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519343_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519343_37) {
-Obj v__3519344_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519345_37 = PRIM_ISCONS(v__3519344_37);
-if (True == v__3519345_37) {
-Obj v__3519346_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519347_37 = PRIM_CAR(v__3519346_37);
-Obj v__3519348_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519347_37);
-if (True == v__3519348_37) {
-Obj v__3519349_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519350_37 = PRIM_CDR(v__3519349_37);
-Obj v__3517764_37 = v__3519350_37;
-Obj v__3519351_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517765_37 = v__3519351_37;
-Obj v__3519352_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517764_37);
-R[1] = v__3519352_37;
+Obj v__3517850_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3519432_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519432_37) {
+Obj v__3519433_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519434_37 = PRIM_ISCONS(v__3519433_37);
+if (True == v__3519434_37) {
+Obj v__3519435_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519436_37 = PRIM_CAR(v__3519435_37);
+Obj v__3519437_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519436_37);
+if (True == v__3519437_37) {
+Obj v__3519438_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519439_37 = PRIM_CDR(v__3519438_37);
+Obj v__3517853_37 = v__3519439_37;
+Obj v__3519440_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517854_37 = v__3519440_37;
+Obj v__3519441_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517853_37);
+R[1] = v__3519441_37;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517765_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517854_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3517850_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3517850_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3517850_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519353_37= co->res;
-Obj v__3519352_37 = R[1];
-Obj v__3519354_37 = makeCons(co->gc, v__3519352_37, v__3519353_37);
-coraReturn(co, v__3519354_37);
+Obj v__3519442_37= co->res;
+Obj v__3519441_37 = R[1];
+Obj v__3519443_37 = makeCons(co->gc, v__3519441_37, v__3519442_37);
+coraReturn(co, v__3519443_37);
 return;
 }
 }
@@ -1012,33 +1012,33 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517762_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3519337_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519337_37) {
-Obj v__3519338_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519339_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519338_37);
-if (True == v__3519339_37) {
-Obj v__3519340_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517763_37 = v__3519340_37;
+Obj v__3517851_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3519426_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519426_37) {
+Obj v__3519427_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519428_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519427_37);
+if (True == v__3519428_37) {
+Obj v__3519429_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517852_37 = v__3519429_37;
 saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517763_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517852_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517762_37);
+coraCall0(co, v__3517851_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517762_37);
+coraCall0(co, v__3517851_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519341_37= co->res;
-Obj v__3519342_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519341_37);
-coraReturn(co, v__3519342_37);
+Obj v__3519430_37= co->res;
+Obj v__3519431_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519430_37);
+coraReturn(co, v__3519431_37);
 return;
 }
 }
@@ -1059,73 +1059,73 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517493_37 = R[1];
-Obj v__3517494_37 = R[2];
-Obj v__3517495_37 = R[3];
-Obj v__3517496_37 = R[4];
-Obj v__3519298_37 = PRIM_EQ(Nil, v__3517493_37);
-if (True == v__3519298_37) {
-R[1] = v__3517495_37;
-R[2] = v__3517496_37;
+Obj v__3517582_37 = R[1];
+Obj v__3517583_37 = R[2];
+Obj v__3517584_37 = R[3];
+Obj v__3517585_37 = R[4];
+Obj v__3519387_37 = PRIM_EQ(Nil, v__3517582_37);
+if (True == v__3519387_37) {
+R[1] = v__3517584_37;
+R[2] = v__3517585_37;
 saveCont(co, clofun128, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517494_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517583_37);
 return;
 } else {
-Obj v__3517751_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3517493_37, v__3517494_37, v__3517495_37, v__3517496_37);
-Obj v__3519325_37 = PRIM_ISCONS(v__3517493_37);
-if (True == v__3519325_37) {
-Obj v__3519326_37 = PRIM_CAR(v__3517493_37);
-Obj v__3519327_37 = PRIM_ISCONS(v__3519326_37);
-if (True == v__3519327_37) {
-Obj v__3519328_37 = PRIM_CAR(v__3517493_37);
-Obj v__3519329_37 = PRIM_CAR(v__3519328_37);
-Obj v__3519330_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3519329_37);
-if (True == v__3519330_37) {
-Obj v__3519331_37 = PRIM_CAR(v__3517493_37);
-Obj v__3519332_37 = PRIM_CDR(v__3519331_37);
-Obj v__3517757_37 = v__3519332_37;
-Obj v__3519333_37 = PRIM_CDR(v__3517493_37);
-Obj v__3517758_37 = v__3519333_37;
-Obj v__3519334_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517757_37);
-Obj v__3519335_37 = makeCons(co->gc, v__3519334_37, v__3517494_37);
+Obj v__3517840_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3517582_37, v__3517583_37, v__3517584_37, v__3517585_37);
+Obj v__3519414_37 = PRIM_ISCONS(v__3517582_37);
+if (True == v__3519414_37) {
+Obj v__3519415_37 = PRIM_CAR(v__3517582_37);
+Obj v__3519416_37 = PRIM_ISCONS(v__3519415_37);
+if (True == v__3519416_37) {
+Obj v__3519417_37 = PRIM_CAR(v__3517582_37);
+Obj v__3519418_37 = PRIM_CAR(v__3519417_37);
+Obj v__3519419_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3519418_37);
+if (True == v__3519419_37) {
+Obj v__3519420_37 = PRIM_CAR(v__3517582_37);
+Obj v__3519421_37 = PRIM_CDR(v__3519420_37);
+Obj v__3517846_37 = v__3519421_37;
+Obj v__3519422_37 = PRIM_CDR(v__3517582_37);
+Obj v__3517847_37 = v__3519422_37;
+Obj v__3519423_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517846_37);
+Obj v__3519424_37 = makeCons(co->gc, v__3519423_37, v__3517583_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517758_37, v__3519335_37, v__3517495_37, v__3517496_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517847_37, v__3519424_37, v__3517584_37, v__3517585_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3517840_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3517840_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3517840_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519300_37= co->res;
-Obj v__3517496_37 = R[1];
-Obj v__3519299_37 = R[2];
+Obj v__3519389_37= co->res;
+Obj v__3517585_37 = R[1];
+Obj v__3519388_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3517496_37, v__3519299_37, v__3519300_37);
+coraCall2(co, v__3517585_37, v__3519388_37, v__3519389_37);
 return;
 }
 case 2:
 {
-Obj v__3519299_37= co->res;
-Obj v__3517495_37 = R[1];
-Obj v__3517496_37 = R[2];
-R[1] = v__3517496_37;
-R[2] = v__3519299_37;
+Obj v__3519388_37= co->res;
+Obj v__3517584_37 = R[1];
+Obj v__3517585_37 = R[2];
+R[1] = v__3517585_37;
+R[2] = v__3519388_37;
 saveCont(co, clofun128, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517495_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517584_37);
 return;
 }
 }
@@ -1135,39 +1135,39 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517752_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3519314_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519314_37) {
-Obj v__3519315_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519316_37 = PRIM_ISCONS(v__3519315_37);
-if (True == v__3519316_37) {
-Obj v__3519317_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519318_37 = PRIM_CAR(v__3519317_37);
-Obj v__3519319_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3519318_37);
-if (True == v__3519319_37) {
-Obj v__3519320_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519321_37 = PRIM_CDR(v__3519320_37);
-Obj v__3517755_37 = v__3519321_37;
-Obj v__3519322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517756_37 = v__3519322_37;
-Obj v__3519323_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3517755_37);
-Obj v__3519324_37 = makeCons(co->gc, v__3519323_37, closureRef(R[0], 1));
+Obj v__3517841_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3519403_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519403_37) {
+Obj v__3519404_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519405_37 = PRIM_ISCONS(v__3519404_37);
+if (True == v__3519405_37) {
+Obj v__3519406_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519407_37 = PRIM_CAR(v__3519406_37);
+Obj v__3519408_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3519407_37);
+if (True == v__3519408_37) {
+Obj v__3519409_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519410_37 = PRIM_CDR(v__3519409_37);
+Obj v__3517844_37 = v__3519410_37;
+Obj v__3519411_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517845_37 = v__3519411_37;
+Obj v__3519412_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3517844_37);
+Obj v__3519413_37 = makeCons(co->gc, v__3519412_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517756_37, v__3519324_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517845_37, v__3519413_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517752_37);
+coraCall0(co, v__3517841_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517752_37);
+coraCall0(co, v__3517841_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517752_37);
+coraCall0(co, v__3517841_37);
 return;
 }
 }
@@ -1178,24 +1178,24 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519301_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519301_37) {
-Obj v__3519302_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517753_37 = v__3519302_37;
-Obj v__3519303_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517754_37 = v__3519303_37;
-Obj v__3519304_37 = makeCons(co->gc, v__3517753_37, Nil);
-Obj v__3519305_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3519304_37);
-Obj v__3519306_37 = makeCons(co->gc, v__3519305_37, Nil);
-Obj v__3519307_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519306_37);
-Obj v__3519308_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v__3519309_37 = makeCons(co->gc, v__3519308_37, Nil);
-Obj v__3519310_37 = makeCons(co->gc, v__3519307_37, v__3519309_37);
-Obj v__3519311_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519310_37);
-Obj v__3519312_37 = makeCons(co->gc, v__3519311_37, closureRef(R[0], 1));
-Obj v__3519313_37 = makeCons(co->gc, v__3517753_37, closureRef(R[0], 2));
+Obj v__3519390_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519390_37) {
+Obj v__3519391_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517842_37 = v__3519391_37;
+Obj v__3519392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517843_37 = v__3519392_37;
+Obj v__3519393_37 = makeCons(co->gc, v__3517842_37, Nil);
+Obj v__3519394_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3519393_37);
+Obj v__3519395_37 = makeCons(co->gc, v__3519394_37, Nil);
+Obj v__3519396_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519395_37);
+Obj v__3519397_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v__3519398_37 = makeCons(co->gc, v__3519397_37, Nil);
+Obj v__3519399_37 = makeCons(co->gc, v__3519396_37, v__3519398_37);
+Obj v__3519400_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519399_37);
+Obj v__3519401_37 = makeCons(co->gc, v__3519400_37, closureRef(R[0], 1));
+Obj v__3519402_37 = makeCons(co->gc, v__3517842_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517754_37, v__3519312_37, v__3519313_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517843_37, v__3519401_37, v__3519402_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1210,37 +1210,37 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517487_37 = R[1];
-Obj v__3517742_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3517487_37);
-Obj v__3519288_37 = PRIM_ISCONS(v__3517487_37);
-if (True == v__3519288_37) {
-Obj v__3519289_37 = PRIM_CAR(v__3517487_37);
-Obj v__3519290_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519289_37);
-if (True == v__3519290_37) {
-Obj v__3519291_37 = PRIM_CDR(v__3517487_37);
-Obj v__3519292_37 = PRIM_ISCONS(v__3519291_37);
-if (True == v__3519292_37) {
-Obj v__3519293_37 = PRIM_CDR(v__3517487_37);
-Obj v__3519294_37 = PRIM_CAR(v__3519293_37);
-Obj v__3519295_37 = PRIM_CDR(v__3517487_37);
-Obj v__3519296_37 = PRIM_CDR(v__3519295_37);
-Obj v__3517750_37 = v__3519296_37;
+Obj v__3517576_37 = R[1];
+Obj v__3517831_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3517576_37);
+Obj v__3519377_37 = PRIM_ISCONS(v__3517576_37);
+if (True == v__3519377_37) {
+Obj v__3519378_37 = PRIM_CAR(v__3517576_37);
+Obj v__3519379_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519378_37);
+if (True == v__3519379_37) {
+Obj v__3519380_37 = PRIM_CDR(v__3517576_37);
+Obj v__3519381_37 = PRIM_ISCONS(v__3519380_37);
+if (True == v__3519381_37) {
+Obj v__3519382_37 = PRIM_CDR(v__3517576_37);
+Obj v__3519383_37 = PRIM_CAR(v__3519382_37);
+Obj v__3519384_37 = PRIM_CDR(v__3517576_37);
+Obj v__3519385_37 = PRIM_CDR(v__3519384_37);
+Obj v__3517839_37 = v__3519385_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517750_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517839_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517742_37);
+coraCall0(co, v__3517831_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517742_37);
+coraCall0(co, v__3517831_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517742_37);
+coraCall0(co, v__3517831_37);
 return;
 }
 }
@@ -1251,25 +1251,25 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517743_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
-Obj v__3519284_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519284_37) {
-Obj v__3519285_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519286_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519285_37);
-if (True == v__3519286_37) {
-Obj v__3519287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517749_37 = v__3519287_37;
+Obj v__3517832_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
+Obj v__3519373_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519373_37) {
+Obj v__3519374_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519375_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519374_37);
+if (True == v__3519375_37) {
+Obj v__3519376_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517838_37 = v__3519376_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517749_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517838_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517743_37);
+coraCall0(co, v__3517832_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517743_37);
+coraCall0(co, v__3517832_37);
 return;
 }
 }
@@ -1280,36 +1280,36 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517744_37 = makeNative(co->gc, 2, clofun122, 0, 1, closureRef(R[0], 0));
-Obj v__3519275_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519275_37) {
-Obj v__3519276_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519277_37 = PRIM_ISCONS(v__3519276_37);
-if (True == v__3519277_37) {
-Obj v__3519278_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519279_37 = PRIM_CAR(v__3519278_37);
-Obj v__3519280_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519279_37);
-if (True == v__3519280_37) {
-Obj v__3519281_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519282_37 = PRIM_CDR(v__3519281_37);
-Obj v__3519283_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517748_37 = v__3519283_37;
+Obj v__3517833_37 = makeNative(co->gc, 2, clofun122, 0, 1, closureRef(R[0], 0));
+Obj v__3519364_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519364_37) {
+Obj v__3519365_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519366_37 = PRIM_ISCONS(v__3519365_37);
+if (True == v__3519366_37) {
+Obj v__3519367_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519368_37 = PRIM_CAR(v__3519367_37);
+Obj v__3519369_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519368_37);
+if (True == v__3519369_37) {
+Obj v__3519370_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519371_37 = PRIM_CDR(v__3519370_37);
+Obj v__3519372_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517837_37 = v__3519372_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517748_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517837_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517744_37);
+coraCall0(co, v__3517833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517744_37);
+coraCall0(co, v__3517833_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517744_37);
+coraCall0(co, v__3517833_37);
 return;
 }
 }
@@ -1320,67 +1320,67 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517745_37 = makeNative(co->gc, 1, clofun121, 0, 0);
-Obj v__3519257_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519257_37) {
-Obj v__3519258_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519259_37 = PRIM_ISCONS(v__3519258_37);
-if (True == v__3519259_37) {
-Obj v__3519260_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519261_37 = PRIM_CAR(v__3519260_37);
-Obj v__3519262_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519261_37);
-if (True == v__3519262_37) {
-Obj v__3519263_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519264_37 = PRIM_CDR(v__3519263_37);
-Obj v__3519265_37 = PRIM_ISCONS(v__3519264_37);
-if (True == v__3519265_37) {
-Obj v__3519266_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519267_37 = PRIM_CDR(v__3519266_37);
-Obj v__3519268_37 = PRIM_CAR(v__3519267_37);
-Obj v__3517746_37 = v__3519268_37;
-Obj v__3519269_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519270_37 = PRIM_CDR(v__3519269_37);
-Obj v__3519271_37 = PRIM_CDR(v__3519270_37);
-Obj v__3519272_37 = PRIM_EQ(Nil, v__3519271_37);
-if (True == v__3519272_37) {
-Obj v__3519273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517747_37 = v__3519273_37;
-R[1] = v__3517747_37;
+Obj v__3517834_37 = makeNative(co->gc, 1, clofun121, 0, 0);
+Obj v__3519346_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3519346_37) {
+Obj v__3519347_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519348_37 = PRIM_ISCONS(v__3519347_37);
+if (True == v__3519348_37) {
+Obj v__3519349_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519350_37 = PRIM_CAR(v__3519349_37);
+Obj v__3519351_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519350_37);
+if (True == v__3519351_37) {
+Obj v__3519352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519353_37 = PRIM_CDR(v__3519352_37);
+Obj v__3519354_37 = PRIM_ISCONS(v__3519353_37);
+if (True == v__3519354_37) {
+Obj v__3519355_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519356_37 = PRIM_CDR(v__3519355_37);
+Obj v__3519357_37 = PRIM_CAR(v__3519356_37);
+Obj v__3517835_37 = v__3519357_37;
+Obj v__3519358_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519359_37 = PRIM_CDR(v__3519358_37);
+Obj v__3519360_37 = PRIM_CDR(v__3519359_37);
+Obj v__3519361_37 = PRIM_EQ(Nil, v__3519360_37);
+if (True == v__3519361_37) {
+Obj v__3519362_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517836_37 = v__3519362_37;
+R[1] = v__3517836_37;
 saveCont(co, clofun122, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3517746_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3517835_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517745_37);
+coraCall0(co, v__3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517745_37);
+coraCall0(co, v__3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517745_37);
+coraCall0(co, v__3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517745_37);
+coraCall0(co, v__3517834_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517745_37);
+coraCall0(co, v__3517834_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519274_37= co->res;
-Obj v__3517747_37 = R[1];
+Obj v__3519363_37= co->res;
+Obj v__3517836_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517747_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517836_37);
 return;
 }
 }
@@ -1412,7 +1412,7 @@ return;
 }
 case 1:
 {
-Obj v__3519255_37= co->res;
+Obj v__3519344_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1422,8 +1422,8 @@ return;
 }
 case 2:
 {
-Obj v__3519254_37= co->res;
-Obj v__3519252_37 = R[1];
+Obj v__3519343_37= co->res;
+Obj v__3519341_37 = R[1];
 Obj v_to = R[2];
 Obj v_globals = R[3];
 Obj v_bc = R[4];
@@ -1431,27 +1431,27 @@ R[1] = v_to;
 R[2] = v_globals;
 R[3] = v_bc;
 saveCont(co, clofun120, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v__3519252_37, v__3519254_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v__3519341_37, v__3519343_37);
 return;
 }
 case 3:
 {
-Obj v__3519252_37= co->res;
+Obj v__3519341_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
-Obj v__3519253_37 = PRIM_CAR(v_bc);
-R[1] = v__3519252_37;
+Obj v__3519342_37 = PRIM_CAR(v_bc);
+R[1] = v__3519341_37;
 R[2] = v_to;
 R[3] = v_globals;
 R[4] = v_bc;
 saveCont(co, clofun120, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519253_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519342_37);
 return;
 }
 case 4:
 {
-Obj v__3519251_37= co->res;
+Obj v__3519340_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1464,7 +1464,7 @@ return;
 }
 case 5:
 {
-Obj v__3519250_37= co->res;
+Obj v__3519339_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1477,7 +1477,7 @@ return;
 }
 case 6:
 {
-Obj v__3519247_37= co->res;
+Obj v__3519336_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1490,7 +1490,7 @@ return;
 }
 case 7:
 {
-Obj v__3519246_37= co->res;
+Obj v__3519335_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1503,7 +1503,7 @@ return;
 }
 case 8:
 {
-Obj v__3519245_37= co->res;
+Obj v__3519334_37= co->res;
 Obj v_to = R[1];
 Obj v_globals = R[2];
 Obj v_bc = R[3];
@@ -1534,14 +1534,14 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_group = R[1];
-Obj v__3519248_37 = PRIM_CAR(v_group);
+Obj v__3519337_37 = PRIM_CAR(v_group);
 saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3519248_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3519337_37);
 return;
 }
 case 1:
 {
-Obj v__3519249_37= co->res;
+Obj v__3519338_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1567,7 +1567,7 @@ return;
 }
 case 1:
 {
-Obj v__3519243_37= co->res;
+Obj v__3519332_37= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
@@ -1575,7 +1575,7 @@ return;
 }
 case 2:
 {
-Obj v__3519242_37= co->res;
+Obj v__3519331_37= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun117, 1, R);
@@ -1584,7 +1584,7 @@ return;
 }
 case 3:
 {
-Obj v__3519241_37= co->res;
+Obj v__3519330_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_to;
@@ -1594,7 +1594,7 @@ return;
 }
 case 4:
 {
-Obj v__3519240_37= co->res;
+Obj v__3519329_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
@@ -1605,7 +1605,7 @@ return;
 }
 case 5:
 {
-Obj v__3519239_37= co->res;
+Obj v__3519328_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
@@ -1616,18 +1616,18 @@ return;
 }
 case 6:
 {
-Obj v__3519238_37= co->res;
+Obj v__3519327_37= co->res;
 Obj v_label = R[1];
 Obj v_to = R[2];
 R[1] = v_label;
 R[2] = v_to;
 saveCont(co, clofun117, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519238_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519327_37);
 return;
 }
 case 7:
 {
-Obj v__3519237_37= co->res;
+Obj v__3519326_37= co->res;
 Obj v_lam = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1639,7 +1639,7 @@ return;
 }
 case 8:
 {
-Obj v__3519236_37= co->res;
+Obj v__3519325_37= co->res;
 Obj v_lam = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1652,7 +1652,7 @@ return;
 }
 case 9:
 {
-Obj v__3519235_37= co->res;
+Obj v__3519324_37= co->res;
 Obj v_lam = R[1];
 Obj v_label = R[2];
 Obj v_to = R[3];
@@ -1665,7 +1665,7 @@ return;
 }
 case 10:
 {
-Obj v__3519226_37= co->res;
+Obj v__3519315_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1679,7 +1679,7 @@ return;
 }
 case 11:
 {
-Obj v__3519225_37= co->res;
+Obj v__3519314_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1694,7 +1694,7 @@ return;
 }
 case 12:
 {
-Obj v__3519224_37= co->res;
+Obj v__3519313_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1704,12 +1704,12 @@ R[2] = v_lam;
 R[3] = v_label;
 R[4] = v_to;
 saveCont(co, clofun117, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519224_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519313_37);
 return;
 }
 case 13:
 {
-Obj v__3519223_37= co->res;
+Obj v__3519312_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1724,7 +1724,7 @@ return;
 }
 case 14:
 {
-Obj v__3519222_37= co->res;
+Obj v__3519311_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1739,7 +1739,7 @@ return;
 }
 case 15:
 {
-Obj v__3519221_37= co->res;
+Obj v__3519310_37= co->res;
 Obj v_globals = R[1];
 Obj v_lam = R[2];
 Obj v_label = R[3];
@@ -1769,15 +1769,15 @@ return;
 }
 case 1:
 {
-Obj v__3519233_37= co->res;
+Obj v__3519322_37= co->res;
 Obj v_acc = R[1];
-Obj v__3519234_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519234_37);
+Obj v__3519323_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519323_37);
 return;
 }
 case 2:
 {
-Obj v__3519232_37= co->res;
+Obj v__3519321_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun116, 1, R);
@@ -1786,25 +1786,25 @@ return;
 }
 case 3:
 {
-Obj v__3519231_37= co->res;
+Obj v__3519320_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3519231_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3519320_37);
 return;
 }
 case 4:
 {
-Obj v__3519230_37= co->res;
+Obj v__3519319_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun116, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3519230_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3519319_37);
 return;
 }
 case 5:
 {
-Obj v__3519229_37= co->res;
+Obj v__3519318_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -1814,7 +1814,7 @@ return;
 }
 case 6:
 {
-Obj v__3519228_37= co->res;
+Obj v__3519317_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1825,7 +1825,7 @@ return;
 }
 case 7:
 {
-Obj v__3519227_37= co->res;
+Obj v__3519316_37= co->res;
 Obj v_sym = R[1];
 Obj v_acc = R[2];
 R[1] = v_sym;
@@ -1844,10 +1844,10 @@ case 0:
 Obj v_to = R[1];
 Obj v_group = R[2];
 Obj v_globals = R[3];
-Obj v__3519199_37 = PRIM_CAR(v_group);
-Obj v__3517738_37 = v__3519199_37;
+Obj v__3519288_37 = PRIM_CAR(v_group);
+Obj v__3517827_37 = v__3519288_37;
 R[1] = v_globals;
-R[2] = v__3517738_37;
+R[2] = v__3517827_37;
 R[3] = v_to;
 saveCont(co, clofun115, 13, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_group);
@@ -1855,7 +1855,7 @@ return;
 }
 case 1:
 {
-Obj v__3519219_37= co->res;
+Obj v__3519308_37= co->res;
 Obj v_to = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n\n"));
@@ -1863,7 +1863,7 @@ return;
 }
 case 2:
 {
-Obj v__3519218_37= co->res;
+Obj v__3519307_37= co->res;
 Obj v_to = R[1];
 R[1] = v_to;
 saveCont(co, clofun115, 1, R);
@@ -1872,41 +1872,41 @@ return;
 }
 case 3:
 {
-Obj v__3519217_37= co->res;
+Obj v__3519306_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517738_37 = R[2];
-Obj v__3517739_37 = R[3];
+Obj v__3517827_37 = R[2];
+Obj v__3517828_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_to;
 saveCont(co, clofun115, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 4, v_globals, v__3517738_37, v__3517739_37, v_to), MAKE_NUMBER(1), v__3519217_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 4, v_globals, v__3517827_37, v__3517828_37, v_to), MAKE_NUMBER(1), v__3519306_37);
 return;
 }
 case 4:
 {
-Obj v__3519209_37= co->res;
+Obj v__3519298_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517738_37 = R[2];
-Obj v__3517739_37 = R[3];
+Obj v__3517827_37 = R[2];
+Obj v__3517828_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v__3517738_37;
-R[3] = v__3517739_37;
+R[2] = v__3517827_37;
+R[3] = v__3517828_37;
 R[4] = v_to;
 saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517739_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517828_37);
 return;
 }
 case 5:
 {
-Obj v__3519208_37= co->res;
+Obj v__3519297_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517738_37 = R[2];
-Obj v__3517739_37 = R[3];
+Obj v__3517827_37 = R[2];
+Obj v__3517828_37 = R[3];
 Obj v_to = R[4];
 R[1] = v_globals;
-R[2] = v__3517738_37;
-R[3] = v__3517739_37;
+R[2] = v__3517827_37;
+R[3] = v__3517828_37;
 R[4] = v_to;
 saveCont(co, clofun115, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
@@ -1914,56 +1914,56 @@ return;
 }
 case 6:
 {
-Obj v__3519207_37= co->res;
-Obj v__3517740_37 = R[1];
-Obj v__3517741_37 = R[2];
+Obj v__3519296_37= co->res;
+Obj v__3517829_37 = R[1];
+Obj v__3517830_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517738_37 = R[4];
-Obj v__3517739_37 = R[5];
+Obj v__3517827_37 = R[4];
+Obj v__3517828_37 = R[5];
 Obj v_to = R[6];
 R[1] = v_globals;
-R[2] = v__3517738_37;
-R[3] = v__3517739_37;
+R[2] = v__3517827_37;
+R[3] = v__3517828_37;
 R[4] = v_to;
 saveCont(co, clofun115, 5, R);
-Obj __args[5] = {v_globals, v__3517738_37, v__3517740_37, v_to, v__3517741_37};
+Obj __args[5] = {v_globals, v__3517827_37, v__3517829_37, v_to, v__3517830_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519206_37= co->res;
-Obj v__3517740_37 = R[1];
-Obj v__3517741_37 = R[2];
+Obj v__3519295_37= co->res;
+Obj v__3517829_37 = R[1];
+Obj v__3517830_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517738_37 = R[4];
-Obj v__3517739_37 = R[5];
+Obj v__3517827_37 = R[4];
+Obj v__3517828_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517740_37;
-R[2] = v__3517741_37;
+R[1] = v__3517829_37;
+R[2] = v__3517830_37;
 R[3] = v_globals;
-R[4] = v__3517738_37;
-R[5] = v__3517739_37;
+R[4] = v__3517827_37;
+R[5] = v__3517828_37;
 R[6] = v_to;
 saveCont(co, clofun115, 6, R);
-Obj __args[5] = {v_globals, v__3517738_37, Nil, v_to, v__3517740_37};
+Obj __args[5] = {v_globals, v__3517827_37, Nil, v_to, v__3517829_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3519205_37= co->res;
-Obj v__3517740_37 = R[1];
-Obj v__3517741_37 = R[2];
+Obj v__3519294_37= co->res;
+Obj v__3517829_37 = R[1];
+Obj v__3517830_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517738_37 = R[4];
-Obj v__3517739_37 = R[5];
+Obj v__3517827_37 = R[4];
+Obj v__3517828_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517740_37;
-R[2] = v__3517741_37;
+R[1] = v__3517829_37;
+R[2] = v__3517830_37;
 R[3] = v_globals;
-R[4] = v__3517738_37;
-R[5] = v__3517739_37;
+R[4] = v__3517827_37;
+R[5] = v__3517828_37;
 R[6] = v_to;
 saveCont(co, clofun115, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "case 0:\n{\n"));
@@ -1971,18 +1971,18 @@ return;
 }
 case 9:
 {
-Obj v__3519204_37= co->res;
-Obj v__3517740_37 = R[1];
-Obj v__3517741_37 = R[2];
+Obj v__3519293_37= co->res;
+Obj v__3517829_37 = R[1];
+Obj v__3517830_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517738_37 = R[4];
-Obj v__3517739_37 = R[5];
+Obj v__3517827_37 = R[4];
+Obj v__3517828_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517740_37;
-R[2] = v__3517741_37;
+R[1] = v__3517829_37;
+R[2] = v__3517830_37;
 R[3] = v_globals;
-R[4] = v__3517738_37;
-R[5] = v__3517739_37;
+R[4] = v__3517827_37;
+R[5] = v__3517828_37;
 R[6] = v_to;
 saveCont(co, clofun115, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " switch (label) {\n"));
@@ -1990,18 +1990,18 @@ return;
 }
 case 10:
 {
-Obj v__3519203_37= co->res;
-Obj v__3517740_37 = R[1];
-Obj v__3517741_37 = R[2];
+Obj v__3519292_37= co->res;
+Obj v__3517829_37 = R[1];
+Obj v__3517830_37 = R[2];
 Obj v_globals = R[3];
-Obj v__3517738_37 = R[4];
-Obj v__3517739_37 = R[5];
+Obj v__3517827_37 = R[4];
+Obj v__3517828_37 = R[5];
 Obj v_to = R[6];
-R[1] = v__3517740_37;
-R[2] = v__3517741_37;
+R[1] = v__3517829_37;
+R[2] = v__3517830_37;
 R[3] = v_globals;
-R[4] = v__3517738_37;
-R[5] = v__3517739_37;
+R[4] = v__3517827_37;
+R[5] = v__3517828_37;
 R[6] = v_to;
 saveCont(co, clofun115, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " {\n"));
@@ -2009,53 +2009,53 @@ return;
 }
 case 11:
 {
-Obj v__3519202_37= co->res;
-Obj v__3517740_37 = R[1];
+Obj v__3519291_37= co->res;
+Obj v__3517829_37 = R[1];
 Obj v_globals = R[2];
-Obj v__3517738_37 = R[3];
-Obj v__3517739_37 = R[4];
+Obj v__3517827_37 = R[3];
+Obj v__3517828_37 = R[4];
 Obj v_to = R[5];
-Obj v__3517741_37 = v__3519202_37;
-R[1] = v__3517740_37;
-R[2] = v__3517741_37;
+Obj v__3517830_37 = v__3519291_37;
+R[1] = v__3517829_37;
+R[2] = v__3517830_37;
 R[3] = v_globals;
-R[4] = v__3517738_37;
-R[5] = v__3517739_37;
+R[4] = v__3517827_37;
+R[5] = v__3517828_37;
 R[6] = v_to;
 saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v__3517738_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v__3517827_37);
 return;
 }
 case 12:
 {
-Obj v__3519201_37= co->res;
+Obj v__3519290_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517738_37 = R[2];
-Obj v__3517739_37 = R[3];
+Obj v__3517827_37 = R[2];
+Obj v__3517828_37 = R[3];
 Obj v_to = R[4];
-Obj v__3517740_37 = v__3519201_37;
-R[1] = v__3517740_37;
+Obj v__3517829_37 = v__3519290_37;
+R[1] = v__3517829_37;
 R[2] = v_globals;
-R[3] = v__3517738_37;
-R[4] = v__3517739_37;
+R[3] = v__3517827_37;
+R[4] = v__3517828_37;
 R[5] = v_to;
 saveCont(co, clofun115, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517739_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517828_37);
 return;
 }
 case 13:
 {
-Obj v__3519200_37= co->res;
+Obj v__3519289_37= co->res;
 Obj v_globals = R[1];
-Obj v__3517738_37 = R[2];
+Obj v__3517827_37 = R[2];
 Obj v_to = R[3];
-Obj v__3517739_37 = v__3519200_37;
+Obj v__3517828_37 = v__3519289_37;
 R[1] = v_globals;
-R[2] = v__3517738_37;
-R[3] = v__3517739_37;
+R[2] = v__3517827_37;
+R[3] = v__3517828_37;
 R[4] = v_to;
 saveCont(co, clofun115, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517739_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517828_37);
 return;
 }
 }
@@ -2075,15 +2075,15 @@ return;
 }
 case 1:
 {
-Obj v__3519215_37= co->res;
+Obj v__3519304_37= co->res;
 Obj v_acc = R[1];
-Obj v__3519216_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519216_37);
+Obj v__3519305_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3519305_37);
 return;
 }
 case 2:
 {
-Obj v__3519214_37= co->res;
+Obj v__3519303_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun114, 1, R);
@@ -2092,18 +2092,18 @@ return;
 }
 case 3:
 {
-Obj v__3519213_37= co->res;
+Obj v__3519302_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
 saveCont(co, clofun114, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519213_37, closureRef(R[0], 3), v_cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519302_37, closureRef(R[0], 3), v_cont};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3519212_37= co->res;
+Obj v__3519301_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2114,7 +2114,7 @@ return;
 }
 case 5:
 {
-Obj v__3519211_37= co->res;
+Obj v__3519300_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2125,7 +2125,7 @@ return;
 }
 case 6:
 {
-Obj v__3519210_37= co->res;
+Obj v__3519299_37= co->res;
 Obj v_cont = R[1];
 Obj v_acc = R[2];
 R[1] = v_cont;
@@ -2141,23 +2141,23 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517483_37 = R[1];
-Obj v__3517484_37 = R[2];
-Obj v__3519193_37 = PRIM_EQ(Nil, v__3517484_37);
-if (True == v__3519193_37) {
+Obj v__3517572_37 = R[1];
+Obj v__3517573_37 = R[2];
+Obj v__3519282_37 = PRIM_EQ(Nil, v__3517573_37);
+if (True == v__3519282_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519194_37 = PRIM_ISCONS(v__3517484_37);
-if (True == v__3519194_37) {
-Obj v__3519195_37 = PRIM_CAR(v__3517484_37);
-Obj v__3517736_37 = v__3519195_37;
-Obj v__3519196_37 = PRIM_CDR(v__3517484_37);
-Obj v__3517737_37 = v__3519196_37;
-R[1] = v__3517483_37;
-R[2] = v__3517737_37;
+Obj v__3519283_37 = PRIM_ISCONS(v__3517573_37);
+if (True == v__3519283_37) {
+Obj v__3519284_37 = PRIM_CAR(v__3517573_37);
+Obj v__3517825_37 = v__3519284_37;
+Obj v__3519285_37 = PRIM_CDR(v__3517573_37);
+Obj v__3517826_37 = v__3519285_37;
+R[1] = v__3517572_37;
+R[2] = v__3517826_37;
 saveCont(co, clofun113, 1, R);
-coraCall1(co, v__3517483_37, v__3517736_37);
+coraCall1(co, v__3517572_37, v__3517825_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2168,11 +2168,11 @@ return;
 }
 case 1:
 {
-Obj v__3519197_37= co->res;
-Obj v__3517483_37 = R[1];
-Obj v__3517737_37 = R[2];
+Obj v__3519286_37= co->res;
+Obj v__3517572_37 = R[1];
+Obj v__3517826_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3517483_37, v__3517737_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3517572_37, v__3517826_37);
 return;
 }
 }
@@ -2191,38 +2191,38 @@ return;
 }
 case 1:
 {
-Obj v__3519191_37= co->res;
+Obj v__3519280_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3519191_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3519280_37);
 return;
 }
 case 2:
 {
-Obj v__3519190_37= co->res;
+Obj v__3519279_37= co->res;
 saveCont(co, clofun112, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3519190_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3519279_37);
 return;
 }
 case 3:
 {
-Obj v__3519189_37= co->res;
+Obj v__3519278_37= co->res;
 saveCont(co, clofun112, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519189_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519278_37);
 return;
 }
 case 4:
 {
-Obj v__3519188_37= co->res;
+Obj v__3519277_37= co->res;
 saveCont(co, clofun112, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519188_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519277_37);
 return;
 }
 case 5:
 {
-Obj v__3519187_37= co->res;
+Obj v__3519276_37= co->res;
 Obj v_exp = R[1];
 saveCont(co, clofun112, 4, R);
-coraCall1(co, v__3519187_37, v_exp);
+coraCall1(co, v__3519276_37, v_exp);
 return;
 }
 }
@@ -2240,19 +2240,19 @@ return;
 }
 case 1:
 {
-Obj v__3519185_37= co->res;
-Obj v__3517734_37 = R[1];
-Obj v__3517735_37 = v__3519185_37;
+Obj v__3519274_37= co->res;
+Obj v__3517823_37 = R[1];
+Obj v__3517824_37 = v__3519274_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3517734_37, v__3517735_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3517823_37, v__3517824_37);
 return;
 }
 case 2:
 {
-Obj v__3519184_37= co->res;
+Obj v__3519273_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517734_37 = v__3519184_37;
-R[1] = v__3517734_37;
+Obj v__3517823_37 = v__3519273_37;
+R[1] = v__3517823_37;
 saveCont(co, clofun111, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
 return;
@@ -2264,23 +2264,23 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517479_37 = R[1];
-Obj v__3517480_37 = R[2];
-Obj v__3519177_37 = PRIM_EQ(Nil, v__3517480_37);
-if (True == v__3519177_37) {
-coraReturn(co, v__3517479_37);
+Obj v__3517568_37 = R[1];
+Obj v__3517569_37 = R[2];
+Obj v__3519266_37 = PRIM_EQ(Nil, v__3517569_37);
+if (True == v__3519266_37) {
+coraReturn(co, v__3517568_37);
 return;
 } else {
-Obj v__3519178_37 = PRIM_ISCONS(v__3517480_37);
-if (True == v__3519178_37) {
-Obj v__3519179_37 = PRIM_CAR(v__3517480_37);
-Obj v__3517732_37 = v__3519179_37;
-Obj v__3519180_37 = PRIM_CDR(v__3517480_37);
-Obj v__3517733_37 = v__3519180_37;
-Obj v__3519181_37 = makeCons(co->gc, v__3517479_37, Nil);
-Obj v__3519182_37 = makeCons(co->gc, v__3517732_37, v__3519181_37);
+Obj v__3519267_37 = PRIM_ISCONS(v__3517569_37);
+if (True == v__3519267_37) {
+Obj v__3519268_37 = PRIM_CAR(v__3517569_37);
+Obj v__3517821_37 = v__3519268_37;
+Obj v__3519269_37 = PRIM_CDR(v__3517569_37);
+Obj v__3517822_37 = v__3519269_37;
+Obj v__3519270_37 = makeCons(co->gc, v__3517568_37, Nil);
+Obj v__3519271_37 = makeCons(co->gc, v__3517821_37, v__3519270_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3519182_37, v__3517733_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3519271_37, v__3517822_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2304,62 +2304,62 @@ return;
 }
 case 1:
 {
-Obj v__3519175_37= co->res;
-Obj v__3517729_37 = R[1];
+Obj v__3519264_37= co->res;
+Obj v__3517818_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517729_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517818_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3519174_37= co->res;
-Obj v__3517729_37 = R[1];
-Obj v__3517731_37 = v__3519174_37;
-R[1] = v__3517729_37;
+Obj v__3519263_37= co->res;
+Obj v__3517818_37 = R[1];
+Obj v__3517820_37 = v__3519263_37;
+R[1] = v__3517818_37;
 saveCont(co, clofun109, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517729_37, v__3517731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517818_37, v__3517820_37);
 return;
 }
 case 3:
 {
-Obj v__3519173_37= co->res;
-Obj v__3517729_37 = R[1];
-Obj v__3517730_37 = v__3519173_37;
-R[1] = v__3517729_37;
+Obj v__3519262_37= co->res;
+Obj v__3517818_37 = R[1];
+Obj v__3517819_37 = v__3519262_37;
+R[1] = v__3517818_37;
 saveCont(co, clofun109, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3517730_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3517819_37);
 return;
 }
 case 4:
 {
-Obj v__3519172_37= co->res;
+Obj v__3519261_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517729_37 = R[2];
-R[1] = v__3517729_37;
+Obj v__3517818_37 = R[2];
+R[1] = v__3517818_37;
 saveCont(co, clofun109, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517729_37, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517818_37, v_exp);
 return;
 }
 case 5:
 {
-Obj v__3519171_37= co->res;
+Obj v__3519260_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517729_37 = R[2];
+Obj v__3517818_37 = R[2];
 R[1] = v_exp;
-R[2] = v__3517729_37;
+R[2] = v__3517818_37;
 saveCont(co, clofun109, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517729_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517818_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3519170_37= co->res;
+Obj v__3519259_37= co->res;
 Obj v_exp = R[1];
-Obj v__3517729_37 = v__3519170_37;
+Obj v__3517818_37 = v__3519259_37;
 R[1] = v_exp;
-R[2] = v__3517729_37;
+R[2] = v__3517818_37;
 saveCont(co, clofun109, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517729_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517818_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2428,7 +2428,7 @@ return;
 }
 case 1:
 {
-Obj v__3519164_37= co->res;
+Obj v__3519253_37= co->res;
 Obj v_w = R[1];
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, ")"));
@@ -2436,7 +2436,7 @@ return;
 }
 case 2:
 {
-Obj v__3519163_37= co->res;
+Obj v__3519252_37= co->res;
 Obj v_w = R[1];
 R[1] = v_w;
 saveCont(co, clofun104, 1, R);
@@ -2445,7 +2445,7 @@ return;
 }
 case 3:
 {
-Obj v__3519162_37= co->res;
+Obj v__3519251_37= co->res;
 Obj v_label = R[1];
 Obj v_w = R[2];
 R[1] = v_w;
@@ -2470,7 +2470,7 @@ return;
 }
 case 1:
 {
-Obj v__3519160_37= co->res;
+Obj v__3519249_37= co->res;
 Obj v_w = R[1];
 Obj v_label = R[2];
 co->ctx.sp = R;
@@ -2484,136 +2484,136 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517473_37 = R[1];
-Obj v__3517474_37 = R[2];
-Obj v__3517475_37 = R[3];
-Obj v__3517476_37 = R[4];
-Obj v__3517477_37 = R[5];
-Obj v__3517725_37 = makeNative(co->gc, 1, clofun101, 0, 0);
-Obj v__3519138_37 = PRIM_ISCONS(v__3517477_37);
-if (True == v__3519138_37) {
-Obj v__3519139_37 = PRIM_CAR(v__3517477_37);
-Obj v__3519140_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3519139_37);
-if (True == v__3519140_37) {
-Obj v__3519141_37 = PRIM_CDR(v__3517477_37);
-Obj v__3519142_37 = PRIM_ISCONS(v__3519141_37);
-if (True == v__3519142_37) {
-Obj v__3519143_37 = PRIM_CDR(v__3517477_37);
-Obj v__3519144_37 = PRIM_CAR(v__3519143_37);
-Obj v__3517726_37 = v__3519144_37;
-Obj v__3519145_37 = PRIM_CDR(v__3517477_37);
-Obj v__3519146_37 = PRIM_CDR(v__3519145_37);
-Obj v__3519147_37 = PRIM_ISCONS(v__3519146_37);
-if (True == v__3519147_37) {
-Obj v__3519148_37 = PRIM_CDR(v__3517477_37);
-Obj v__3519149_37 = PRIM_CDR(v__3519148_37);
-Obj v__3519150_37 = PRIM_CAR(v__3519149_37);
-Obj v__3517727_37 = v__3519150_37;
-Obj v__3519151_37 = PRIM_CDR(v__3517477_37);
-Obj v__3519152_37 = PRIM_CDR(v__3519151_37);
-Obj v__3519153_37 = PRIM_CDR(v__3519152_37);
-Obj v__3517728_37 = v__3519153_37;
-R[1] = v__3517726_37;
-R[2] = v__3517728_37;
-R[3] = v__3517473_37;
-R[4] = v__3517474_37;
-R[5] = v__3517475_37;
-R[6] = v__3517476_37;
-R[7] = v__3517727_37;
+Obj v__3517562_37 = R[1];
+Obj v__3517563_37 = R[2];
+Obj v__3517564_37 = R[3];
+Obj v__3517565_37 = R[4];
+Obj v__3517566_37 = R[5];
+Obj v__3517814_37 = makeNative(co->gc, 1, clofun101, 0, 0);
+Obj v__3519227_37 = PRIM_ISCONS(v__3517566_37);
+if (True == v__3519227_37) {
+Obj v__3519228_37 = PRIM_CAR(v__3517566_37);
+Obj v__3519229_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3519228_37);
+if (True == v__3519229_37) {
+Obj v__3519230_37 = PRIM_CDR(v__3517566_37);
+Obj v__3519231_37 = PRIM_ISCONS(v__3519230_37);
+if (True == v__3519231_37) {
+Obj v__3519232_37 = PRIM_CDR(v__3517566_37);
+Obj v__3519233_37 = PRIM_CAR(v__3519232_37);
+Obj v__3517815_37 = v__3519233_37;
+Obj v__3519234_37 = PRIM_CDR(v__3517566_37);
+Obj v__3519235_37 = PRIM_CDR(v__3519234_37);
+Obj v__3519236_37 = PRIM_ISCONS(v__3519235_37);
+if (True == v__3519236_37) {
+Obj v__3519237_37 = PRIM_CDR(v__3517566_37);
+Obj v__3519238_37 = PRIM_CDR(v__3519237_37);
+Obj v__3519239_37 = PRIM_CAR(v__3519238_37);
+Obj v__3517816_37 = v__3519239_37;
+Obj v__3519240_37 = PRIM_CDR(v__3517566_37);
+Obj v__3519241_37 = PRIM_CDR(v__3519240_37);
+Obj v__3519242_37 = PRIM_CDR(v__3519241_37);
+Obj v__3517817_37 = v__3519242_37;
+R[1] = v__3517815_37;
+R[2] = v__3517817_37;
+R[3] = v__3517562_37;
+R[4] = v__3517563_37;
+R[5] = v__3517564_37;
+R[6] = v__3517565_37;
+R[7] = v__3517816_37;
 saveCont(co, clofun102, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517476_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517565_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517725_37);
+coraCall0(co, v__3517814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517725_37);
+coraCall0(co, v__3517814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517725_37);
+coraCall0(co, v__3517814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517725_37);
+coraCall0(co, v__3517814_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519158_37= co->res;
-Obj v__3517473_37 = R[1];
-Obj v__3517474_37 = R[2];
-Obj v__3517475_37 = R[3];
-Obj v__3517476_37 = R[4];
-Obj v__3517727_37 = R[5];
+Obj v__3519247_37= co->res;
+Obj v__3517562_37 = R[1];
+Obj v__3517563_37 = R[2];
+Obj v__3517564_37 = R[3];
+Obj v__3517565_37 = R[4];
+Obj v__3517816_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3517473_37, v__3517474_37, v__3517475_37, v__3517476_37, v__3517727_37};
+Obj __args[5] = {v__3517562_37, v__3517563_37, v__3517564_37, v__3517565_37, v__3517816_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3519157_37= co->res;
-Obj v__3517728_37 = R[1];
-Obj v__3517473_37 = R[2];
-Obj v__3517474_37 = R[3];
-Obj v__3517475_37 = R[4];
-Obj v__3517476_37 = R[5];
-Obj v__3517727_37 = R[6];
-R[1] = v__3517473_37;
-R[2] = v__3517474_37;
-R[3] = v__3517475_37;
-R[4] = v__3517476_37;
-R[5] = v__3517727_37;
+Obj v__3519246_37= co->res;
+Obj v__3517817_37 = R[1];
+Obj v__3517562_37 = R[2];
+Obj v__3517563_37 = R[3];
+Obj v__3517564_37 = R[4];
+Obj v__3517565_37 = R[5];
+Obj v__3517816_37 = R[6];
+R[1] = v__3517562_37;
+R[2] = v__3517563_37;
+R[3] = v__3517564_37;
+R[4] = v__3517565_37;
+R[5] = v__3517816_37;
 saveCont(co, clofun102, 1, R);
-Obj __args[5] = {v__3517473_37, v__3517474_37, v__3517475_37, v__3517476_37, v__3517728_37};
+Obj __args[5] = {v__3517562_37, v__3517563_37, v__3517564_37, v__3517565_37, v__3517817_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519156_37= co->res;
-Obj v__3517728_37 = R[1];
-Obj v__3517473_37 = R[2];
-Obj v__3517474_37 = R[3];
-Obj v__3517475_37 = R[4];
-Obj v__3517476_37 = R[5];
-Obj v__3517727_37 = R[6];
-R[1] = v__3517728_37;
-R[2] = v__3517473_37;
-R[3] = v__3517474_37;
-R[4] = v__3517475_37;
-R[5] = v__3517476_37;
-R[6] = v__3517727_37;
+Obj v__3519245_37= co->res;
+Obj v__3517817_37 = R[1];
+Obj v__3517562_37 = R[2];
+Obj v__3517563_37 = R[3];
+Obj v__3517564_37 = R[4];
+Obj v__3517565_37 = R[5];
+Obj v__3517816_37 = R[6];
+R[1] = v__3517817_37;
+R[2] = v__3517562_37;
+R[3] = v__3517563_37;
+R[4] = v__3517564_37;
+R[5] = v__3517565_37;
+R[6] = v__3517816_37;
 saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517476_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517565_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3519154_37= co->res;
-Obj v__3517726_37 = R[1];
-Obj v__3517728_37 = R[2];
-Obj v__3517473_37 = R[3];
-Obj v__3517474_37 = R[4];
-Obj v__3517475_37 = R[5];
-Obj v__3517476_37 = R[6];
-Obj v__3517727_37 = R[7];
-Obj v__3519155_37 = PRIM_CAR(v__3517726_37);
-R[1] = v__3517728_37;
-R[2] = v__3517473_37;
-R[3] = v__3517474_37;
-R[4] = v__3517475_37;
-R[5] = v__3517476_37;
-R[6] = v__3517727_37;
+Obj v__3519243_37= co->res;
+Obj v__3517815_37 = R[1];
+Obj v__3517817_37 = R[2];
+Obj v__3517562_37 = R[3];
+Obj v__3517563_37 = R[4];
+Obj v__3517564_37 = R[5];
+Obj v__3517565_37 = R[6];
+Obj v__3517816_37 = R[7];
+Obj v__3519244_37 = PRIM_CAR(v__3517815_37);
+R[1] = v__3517817_37;
+R[2] = v__3517562_37;
+R[3] = v__3517563_37;
+R[4] = v__3517564_37;
+R[5] = v__3517565_37;
+R[6] = v__3517816_37;
 saveCont(co, clofun102, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3517476_37, v__3519155_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3517565_37, v__3519244_37);
 return;
 }
 }
@@ -2639,20 +2639,20 @@ Obj v_self = R[2];
 Obj v_env = R[3];
 Obj v_w = R[4];
 Obj v_l = R[5];
-Obj v__3519124_37 = primGenSym(co);
-Obj v__3517722_37 = v__3519124_37;
-Obj v__3519135_37 = primSet(co, v__3517722_37, makeNative(co->gc, 2, clofun99, 1, 5, v_globals, v_self, v_env, v_w, v__3517722_37));
+Obj v__3519213_37 = primGenSym(co);
+Obj v__3517811_37 = v__3519213_37;
+Obj v__3519224_37 = primSet(co, v__3517811_37, makeNative(co->gc, 2, clofun99, 1, 5, v_globals, v_self, v_env, v_w, v__3517811_37));
 R[1] = v_l;
 saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517722_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517811_37);
 return;
 }
 case 1:
 {
-Obj v__3519136_37= co->res;
+Obj v__3519225_37= co->res;
 Obj v_l = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519136_37, v_l);
+coraCall1(co, v__3519225_37, v_l);
 return;
 }
 }
@@ -2663,20 +2663,20 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3519125_37 = PRIM_EQ(Nil, v_x);
-if (True == v__3519125_37) {
+Obj v__3519214_37 = PRIM_EQ(Nil, v_x);
+if (True == v__3519214_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519126_37 = PRIM_ISCONS(v_x);
-if (True == v__3519126_37) {
-Obj v__3519127_37 = PRIM_CAR(v_x);
-Obj v__3517723_37 = v__3519127_37;
-Obj v__3519128_37 = PRIM_CDR(v_x);
-Obj v__3517724_37 = v__3519128_37;
-R[1] = v__3517724_37;
+Obj v__3519215_37 = PRIM_ISCONS(v_x);
+if (True == v__3519215_37) {
+Obj v__3519216_37 = PRIM_CAR(v_x);
+Obj v__3517812_37 = v__3519216_37;
+Obj v__3519217_37 = PRIM_CDR(v_x);
+Obj v__3517813_37 = v__3519217_37;
+R[1] = v__3517813_37;
 saveCont(co, clofun99, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517723_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517812_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2688,42 +2688,42 @@ return;
 }
 case 1:
 {
-Obj v__3519133_37= co->res;
-Obj v__3517724_37 = R[1];
+Obj v__3519222_37= co->res;
+Obj v__3517813_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519133_37, v__3517724_37);
+coraCall1(co, v__3519222_37, v__3517813_37);
 return;
 }
 case 2:
 {
-Obj v__3519132_37= co->res;
-Obj v__3517724_37 = R[1];
-R[1] = v__3517724_37;
+Obj v__3519221_37= co->res;
+Obj v__3517813_37 = R[1];
+R[1] = v__3517813_37;
 saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519134_37= co->res;
-Obj v__3517724_37 = R[1];
+Obj v__3519223_37= co->res;
+Obj v__3517813_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519134_37, v__3517724_37);
+coraCall1(co, v__3519223_37, v__3517813_37);
 return;
 }
 case 4:
 {
-Obj v__3519130_37= co->res;
-Obj v__3517724_37 = R[1];
-Obj v__3519131_37 = primNot(v__3519130_37);
-if (True == v__3519131_37) {
-R[1] = v__3517724_37;
+Obj v__3519219_37= co->res;
+Obj v__3517813_37 = R[1];
+Obj v__3519220_37 = primNot(v__3519219_37);
+if (True == v__3519220_37) {
+R[1] = v__3517813_37;
 saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3517724_37;
+R[1] = v__3517813_37;
 saveCont(co, clofun99, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
@@ -2731,11 +2731,11 @@ return;
 }
 case 5:
 {
-Obj v__3519129_37= co->res;
-Obj v__3517724_37 = R[1];
-R[1] = v__3517724_37;
+Obj v__3519218_37= co->res;
+Obj v__3517813_37 = R[1];
+R[1] = v__3517813_37;
 saveCont(co, clofun99, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517724_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517813_37);
 return;
 }
 }
@@ -2750,22 +2750,22 @@ Obj v_self = R[2];
 Obj v_env1 = R[3];
 Obj v_w = R[4];
 Obj v_x1 = R[5];
-Obj v__3518837_37 = primGenSym(co);
-Obj v__3517685_37 = v__3518837_37;
-Obj v__3519121_37 = primSet(co, v__3517685_37, makeNative(co->gc, 3, clofun97, 2, 4, v_self, v__3517685_37, v_globals, v_w));
+Obj v__3518926_37 = primGenSym(co);
+Obj v__3517774_37 = v__3518926_37;
+Obj v__3519210_37 = primSet(co, v__3517774_37, makeNative(co->gc, 3, clofun97, 2, 4, v_self, v__3517774_37, v_globals, v_w));
 R[1] = v_x1;
 R[2] = v_env1;
 saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517685_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517774_37);
 return;
 }
 case 1:
 {
-Obj v__3519122_37= co->res;
+Obj v__3519211_37= co->res;
 Obj v_x1 = R[1];
 Obj v_env1 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519122_37, v_x1, v_env1);
+coraCall2(co, v__3519211_37, v_x1, v_env1);
 return;
 }
 }
@@ -2777,74 +2777,74 @@ case 0:
 {
 Obj v_x2 = R[1];
 Obj v_env = R[2];
-Obj v__3518838_37 = primIsSymbol(v_x2);
-if (True == v__3518838_37) {
+Obj v__3518927_37 = primIsSymbol(v_x2);
+if (True == v__3518927_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_x2);
 return;
 } else {
-Obj v__3517686_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v__3519108_37 = PRIM_ISCONS(v_x2);
-if (True == v__3519108_37) {
-Obj v__3519109_37 = PRIM_CAR(v_x2);
-Obj v__3519110_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3519109_37);
-if (True == v__3519110_37) {
-Obj v__3519111_37 = PRIM_CDR(v_x2);
-Obj v__3519112_37 = PRIM_ISCONS(v__3519111_37);
-if (True == v__3519112_37) {
-Obj v__3519113_37 = PRIM_CDR(v_x2);
-Obj v__3519114_37 = PRIM_CAR(v__3519113_37);
-Obj v__3517721_37 = v__3519114_37;
-Obj v__3519115_37 = PRIM_CDR(v_x2);
-Obj v__3519116_37 = PRIM_CDR(v__3519115_37);
-Obj v__3519117_37 = PRIM_EQ(Nil, v__3519116_37);
-if (True == v__3519117_37) {
-R[1] = v__3517721_37;
+Obj v__3517775_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
+Obj v__3519197_37 = PRIM_ISCONS(v_x2);
+if (True == v__3519197_37) {
+Obj v__3519198_37 = PRIM_CAR(v_x2);
+Obj v__3519199_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3519198_37);
+if (True == v__3519199_37) {
+Obj v__3519200_37 = PRIM_CDR(v_x2);
+Obj v__3519201_37 = PRIM_ISCONS(v__3519200_37);
+if (True == v__3519201_37) {
+Obj v__3519202_37 = PRIM_CDR(v_x2);
+Obj v__3519203_37 = PRIM_CAR(v__3519202_37);
+Obj v__3517810_37 = v__3519203_37;
+Obj v__3519204_37 = PRIM_CDR(v_x2);
+Obj v__3519205_37 = PRIM_CDR(v__3519204_37);
+Obj v__3519206_37 = PRIM_EQ(Nil, v__3519205_37);
+if (True == v__3519206_37) {
+R[1] = v__3517810_37;
 saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517686_37);
+coraCall0(co, v__3517775_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517686_37);
+coraCall0(co, v__3517775_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517686_37);
+coraCall0(co, v__3517775_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517686_37);
+coraCall0(co, v__3517775_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519120_37= co->res;
+Obj v__3519209_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3519119_37= co->res;
+Obj v__3519208_37= co->res;
 saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519119_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519208_37);
 return;
 }
 case 3:
 {
-Obj v__3519118_37= co->res;
-Obj v__3517721_37 = R[1];
+Obj v__3519207_37= co->res;
+Obj v__3517810_37 = R[1];
 saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517721_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517810_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -2854,60 +2854,60 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517687_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3519096_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3519096_37) {
-Obj v__3519097_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3519098_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3519097_37);
-if (True == v__3519098_37) {
-Obj v__3519099_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519100_37 = PRIM_ISCONS(v__3519099_37);
-if (True == v__3519100_37) {
-Obj v__3519101_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519102_37 = PRIM_CAR(v__3519101_37);
-Obj v__3517720_37 = v__3519102_37;
-Obj v__3519103_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519104_37 = PRIM_CDR(v__3519103_37);
-Obj v__3519105_37 = PRIM_EQ(Nil, v__3519104_37);
-if (True == v__3519105_37) {
-R[1] = v__3517720_37;
+Obj v__3517776_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3519185_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3519185_37) {
+Obj v__3519186_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3519187_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3519186_37);
+if (True == v__3519187_37) {
+Obj v__3519188_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519189_37 = PRIM_ISCONS(v__3519188_37);
+if (True == v__3519189_37) {
+Obj v__3519190_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519191_37 = PRIM_CAR(v__3519190_37);
+Obj v__3517809_37 = v__3519191_37;
+Obj v__3519192_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3519193_37 = PRIM_CDR(v__3519192_37);
+Obj v__3519194_37 = PRIM_EQ(Nil, v__3519193_37);
+if (True == v__3519194_37) {
+R[1] = v__3517809_37;
 saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517687_37);
+coraCall0(co, v__3517776_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517687_37);
+coraCall0(co, v__3517776_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517687_37);
+coraCall0(co, v__3517776_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517687_37);
+coraCall0(co, v__3517776_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519107_37= co->res;
+Obj v__3519196_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519106_37= co->res;
-Obj v__3517720_37 = R[1];
+Obj v__3519195_37= co->res;
+Obj v__3517809_37 = R[1];
 saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517720_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517809_37);
 return;
 }
 }
@@ -2917,145 +2917,145 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517688_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3519072_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3519072_37) {
-Obj v__3519073_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3519074_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3519073_37);
-if (True == v__3519074_37) {
-Obj v__3519075_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519076_37 = PRIM_ISCONS(v__3519075_37);
-if (True == v__3519076_37) {
-Obj v__3519077_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519078_37 = PRIM_CAR(v__3519077_37);
-Obj v__3517719_37 = v__3519078_37;
-Obj v__3519079_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519080_37 = PRIM_CDR(v__3519079_37);
-Obj v__3519081_37 = PRIM_EQ(Nil, v__3519080_37);
-if (True == v__3519081_37) {
-Obj v__3519082_37 = primIsSymbol(v__3517719_37);
-if (True == v__3519082_37) {
-R[1] = v__3517719_37;
+Obj v__3517777_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3519161_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3519161_37) {
+Obj v__3519162_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3519163_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3519162_37);
+if (True == v__3519163_37) {
+Obj v__3519164_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519165_37 = PRIM_ISCONS(v__3519164_37);
+if (True == v__3519165_37) {
+Obj v__3519166_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519167_37 = PRIM_CAR(v__3519166_37);
+Obj v__3517808_37 = v__3519167_37;
+Obj v__3519168_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3519169_37 = PRIM_CDR(v__3519168_37);
+Obj v__3519170_37 = PRIM_EQ(Nil, v__3519169_37);
+if (True == v__3519170_37) {
+Obj v__3519171_37 = primIsSymbol(v__3517808_37);
+if (True == v__3519171_37) {
+R[1] = v__3517808_37;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3517719_37;
+R[1] = v__3517808_37;
 saveCont(co, clofun95, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517719_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517808_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517688_37);
+coraCall0(co, v__3517777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517688_37);
+coraCall0(co, v__3517777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517688_37);
+coraCall0(co, v__3517777_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517688_37);
+coraCall0(co, v__3517777_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519085_37= co->res;
+Obj v__3519174_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3519084_37= co->res;
+Obj v__3519173_37= co->res;
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519084_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519173_37);
 return;
 }
 case 3:
 {
-Obj v__3519083_37= co->res;
-Obj v__3517719_37 = R[1];
+Obj v__3519172_37= co->res;
+Obj v__3517808_37 = R[1];
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517719_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517808_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3519088_37= co->res;
+Obj v__3519177_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3519087_37= co->res;
-Obj v__3517719_37 = R[1];
+Obj v__3519176_37= co->res;
+Obj v__3517808_37 = R[1];
 saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517719_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517808_37);
 return;
 }
 case 6:
 {
-Obj v__3519092_37= co->res;
+Obj v__3519181_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3519091_37= co->res;
+Obj v__3519180_37= co->res;
 saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519091_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519180_37);
 return;
 }
 case 8:
 {
-Obj v__3519090_37= co->res;
-Obj v__3517719_37 = R[1];
+Obj v__3519179_37= co->res;
+Obj v__3517808_37 = R[1];
 saveCont(co, clofun95, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3517719_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3517808_37);
 return;
 }
 case 9:
 {
-Obj v__3519086_37= co->res;
-Obj v__3517719_37 = R[1];
-if (True == v__3519086_37) {
-R[1] = v__3517719_37;
+Obj v__3519175_37= co->res;
+Obj v__3517808_37 = R[1];
+if (True == v__3519175_37) {
+R[1] = v__3517808_37;
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3519089_37 = primIsString(v__3517719_37);
-if (True == v__3519089_37) {
-R[1] = v__3517719_37;
+Obj v__3519178_37 = primIsString(v__3517808_37);
+if (True == v__3519178_37) {
+R[1] = v__3517808_37;
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3519093_37 = PRIM_EQ(v__3517719_37, Nil);
-if (True == v__3519093_37) {
+Obj v__3519182_37 = PRIM_EQ(v__3517808_37, Nil);
+if (True == v__3519182_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3519094_37 = PRIM_EQ(v__3517719_37, True);
-if (True == v__3519094_37) {
+Obj v__3519183_37 = PRIM_EQ(v__3517808_37, True);
+if (True == v__3519183_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3519095_37 = PRIM_EQ(v__3517719_37, False);
-if (True == v__3519095_37) {
+Obj v__3519184_37 = PRIM_EQ(v__3517808_37, False);
+if (True == v__3519184_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3076,171 +3076,171 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517689_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3519037_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3519037_37) {
-Obj v__3519038_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3519039_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3519038_37);
-if (True == v__3519039_37) {
-Obj v__3519040_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519041_37 = PRIM_ISCONS(v__3519040_37);
-if (True == v__3519041_37) {
-Obj v__3519042_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519043_37 = PRIM_CAR(v__3519042_37);
-Obj v__3517716_37 = v__3519043_37;
-Obj v__3519044_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519045_37 = PRIM_CDR(v__3519044_37);
-Obj v__3519046_37 = PRIM_ISCONS(v__3519045_37);
-if (True == v__3519046_37) {
-Obj v__3519047_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519048_37 = PRIM_CDR(v__3519047_37);
-Obj v__3519049_37 = PRIM_CAR(v__3519048_37);
-Obj v__3517717_37 = v__3519049_37;
-Obj v__3519050_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519051_37 = PRIM_CDR(v__3519050_37);
-Obj v__3519052_37 = PRIM_CDR(v__3519051_37);
-Obj v__3519053_37 = PRIM_ISCONS(v__3519052_37);
-if (True == v__3519053_37) {
-Obj v__3519054_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519055_37 = PRIM_CDR(v__3519054_37);
-Obj v__3519056_37 = PRIM_CDR(v__3519055_37);
-Obj v__3519057_37 = PRIM_CAR(v__3519056_37);
-Obj v__3517718_37 = v__3519057_37;
-Obj v__3519058_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519059_37 = PRIM_CDR(v__3519058_37);
-Obj v__3519060_37 = PRIM_CDR(v__3519059_37);
-Obj v__3519061_37 = PRIM_CDR(v__3519060_37);
-Obj v__3519062_37 = PRIM_EQ(Nil, v__3519061_37);
-if (True == v__3519062_37) {
-R[1] = v__3517717_37;
-R[2] = v__3517716_37;
-R[3] = v__3517718_37;
+Obj v__3517778_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3519126_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3519126_37) {
+Obj v__3519127_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3519128_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3519127_37);
+if (True == v__3519128_37) {
+Obj v__3519129_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519130_37 = PRIM_ISCONS(v__3519129_37);
+if (True == v__3519130_37) {
+Obj v__3519131_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519132_37 = PRIM_CAR(v__3519131_37);
+Obj v__3517805_37 = v__3519132_37;
+Obj v__3519133_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519134_37 = PRIM_CDR(v__3519133_37);
+Obj v__3519135_37 = PRIM_ISCONS(v__3519134_37);
+if (True == v__3519135_37) {
+Obj v__3519136_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519137_37 = PRIM_CDR(v__3519136_37);
+Obj v__3519138_37 = PRIM_CAR(v__3519137_37);
+Obj v__3517806_37 = v__3519138_37;
+Obj v__3519139_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519140_37 = PRIM_CDR(v__3519139_37);
+Obj v__3519141_37 = PRIM_CDR(v__3519140_37);
+Obj v__3519142_37 = PRIM_ISCONS(v__3519141_37);
+if (True == v__3519142_37) {
+Obj v__3519143_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519144_37 = PRIM_CDR(v__3519143_37);
+Obj v__3519145_37 = PRIM_CDR(v__3519144_37);
+Obj v__3519146_37 = PRIM_CAR(v__3519145_37);
+Obj v__3517807_37 = v__3519146_37;
+Obj v__3519147_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519148_37 = PRIM_CDR(v__3519147_37);
+Obj v__3519149_37 = PRIM_CDR(v__3519148_37);
+Obj v__3519150_37 = PRIM_CDR(v__3519149_37);
+Obj v__3519151_37 = PRIM_EQ(Nil, v__3519150_37);
+if (True == v__3519151_37) {
+R[1] = v__3517806_37;
+R[2] = v__3517805_37;
+R[3] = v__3517807_37;
 saveCont(co, clofun94, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517716_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517805_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517689_37);
+coraCall0(co, v__3517778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517689_37);
+coraCall0(co, v__3517778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517689_37);
+coraCall0(co, v__3517778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517689_37);
+coraCall0(co, v__3517778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517689_37);
+coraCall0(co, v__3517778_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517689_37);
+coraCall0(co, v__3517778_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519070_37= co->res;
-Obj v__3517716_37 = R[1];
-Obj v__3517718_37 = R[2];
-Obj v__3519071_37 = makeCons(co->gc, v__3517716_37, closureRef(R[0], 5));
+Obj v__3519159_37= co->res;
+Obj v__3517805_37 = R[1];
+Obj v__3517807_37 = R[2];
+Obj v__3519160_37 = makeCons(co->gc, v__3517805_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3519070_37, v__3517718_37, v__3519071_37);
+coraCall2(co, v__3519159_37, v__3517807_37, v__3519160_37);
 return;
 }
 case 2:
 {
-Obj v__3519069_37= co->res;
-Obj v__3517716_37 = R[1];
-Obj v__3517718_37 = R[2];
-R[1] = v__3517716_37;
-R[2] = v__3517718_37;
+Obj v__3519158_37= co->res;
+Obj v__3517805_37 = R[1];
+Obj v__3517807_37 = R[2];
+R[1] = v__3517805_37;
+R[2] = v__3517807_37;
 saveCont(co, clofun94, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519068_37= co->res;
-Obj v__3517716_37 = R[1];
-Obj v__3517718_37 = R[2];
-R[1] = v__3517716_37;
-R[2] = v__3517718_37;
+Obj v__3519157_37= co->res;
+Obj v__3517805_37 = R[1];
+Obj v__3517807_37 = R[2];
+R[1] = v__3517805_37;
+R[2] = v__3517807_37;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3519067_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517716_37 = R[2];
-Obj v__3517718_37 = R[3];
-R[1] = v__3517716_37;
-R[2] = v__3517718_37;
+Obj v__3519156_37= co->res;
+Obj v__3517806_37 = R[1];
+Obj v__3517805_37 = R[2];
+Obj v__3517807_37 = R[3];
+R[1] = v__3517805_37;
+R[2] = v__3517807_37;
 saveCont(co, clofun94, 3, R);
-coraCall2(co, v__3519067_37, v__3517717_37, closureRef(R[0], 5));
+coraCall2(co, v__3519156_37, v__3517806_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3519066_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517716_37 = R[2];
-Obj v__3517718_37 = R[3];
-R[1] = v__3517717_37;
-R[2] = v__3517716_37;
-R[3] = v__3517718_37;
+Obj v__3519155_37= co->res;
+Obj v__3517806_37 = R[1];
+Obj v__3517805_37 = R[2];
+Obj v__3517807_37 = R[3];
+R[1] = v__3517806_37;
+R[2] = v__3517805_37;
+R[3] = v__3517807_37;
 saveCont(co, clofun94, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519065_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517716_37 = R[2];
-Obj v__3517718_37 = R[3];
-R[1] = v__3517717_37;
-R[2] = v__3517716_37;
-R[3] = v__3517718_37;
+Obj v__3519154_37= co->res;
+Obj v__3517806_37 = R[1];
+Obj v__3517805_37 = R[2];
+Obj v__3517807_37 = R[3];
+R[1] = v__3517806_37;
+R[2] = v__3517805_37;
+R[3] = v__3517807_37;
 saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3519064_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517716_37 = R[2];
-Obj v__3517718_37 = R[3];
-R[1] = v__3517717_37;
-R[2] = v__3517716_37;
-R[3] = v__3517718_37;
+Obj v__3519153_37= co->res;
+Obj v__3517806_37 = R[1];
+Obj v__3517805_37 = R[2];
+Obj v__3517807_37 = R[3];
+R[1] = v__3517806_37;
+R[2] = v__3517805_37;
+R[3] = v__3517807_37;
 saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3517716_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3517805_37);
 return;
 }
 case 8:
 {
-Obj v__3519063_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517716_37 = R[2];
-Obj v__3517718_37 = R[3];
-R[1] = v__3517717_37;
-R[2] = v__3517716_37;
-R[3] = v__3517718_37;
+Obj v__3519152_37= co->res;
+Obj v__3517806_37 = R[1];
+Obj v__3517805_37 = R[2];
+Obj v__3517807_37 = R[3];
+R[1] = v__3517806_37;
+R[2] = v__3517805_37;
+R[3] = v__3517807_37;
 saveCont(co, clofun94, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3252,153 +3252,153 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517690_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3519007_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3519007_37) {
-Obj v__3519008_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519009_37 = PRIM_ISCONS(v__3519008_37);
-if (True == v__3519009_37) {
-Obj v__3519010_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519011_37 = PRIM_CAR(v__3519010_37);
-Obj v__3519012_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3519011_37);
-if (True == v__3519012_37) {
-Obj v__3519013_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519014_37 = PRIM_CDR(v__3519013_37);
-Obj v__3519015_37 = PRIM_ISCONS(v__3519014_37);
-if (True == v__3519015_37) {
-Obj v__3519016_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
-Obj v__3519018_37 = PRIM_CAR(v__3519017_37);
-Obj v__3517714_37 = v__3519018_37;
-Obj v__3519019_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519020_37 = PRIM_CDR(v__3519019_37);
-Obj v__3519021_37 = PRIM_CDR(v__3519020_37);
-Obj v__3519022_37 = PRIM_EQ(Nil, v__3519021_37);
-if (True == v__3519022_37) {
-Obj v__3519023_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3517715_37 = v__3519023_37;
-R[1] = v__3517714_37;
-R[2] = v__3517715_37;
+Obj v__3517779_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3519096_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3519096_37) {
+Obj v__3519097_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519098_37 = PRIM_ISCONS(v__3519097_37);
+if (True == v__3519098_37) {
+Obj v__3519099_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519100_37 = PRIM_CAR(v__3519099_37);
+Obj v__3519101_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3519100_37);
+if (True == v__3519101_37) {
+Obj v__3519102_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519103_37 = PRIM_CDR(v__3519102_37);
+Obj v__3519104_37 = PRIM_ISCONS(v__3519103_37);
+if (True == v__3519104_37) {
+Obj v__3519105_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519106_37 = PRIM_CDR(v__3519105_37);
+Obj v__3519107_37 = PRIM_CAR(v__3519106_37);
+Obj v__3517803_37 = v__3519107_37;
+Obj v__3519108_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519109_37 = PRIM_CDR(v__3519108_37);
+Obj v__3519110_37 = PRIM_CDR(v__3519109_37);
+Obj v__3519111_37 = PRIM_EQ(Nil, v__3519110_37);
+if (True == v__3519111_37) {
+Obj v__3519112_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3517804_37 = v__3519112_37;
+R[1] = v__3517803_37;
+R[2] = v__3517804_37;
 saveCont(co, clofun93, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517714_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517803_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517779_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517779_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517779_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517779_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517690_37);
+coraCall0(co, v__3517779_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519028_37= co->res;
+Obj v__3519117_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519027_37= co->res;
-Obj v__3517715_37 = R[1];
+Obj v__3519116_37= co->res;
+Obj v__3517804_37 = R[1];
 saveCont(co, clofun93, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519031_37= co->res;
+Obj v__3519120_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3519030_37= co->res;
-Obj v__3517715_37 = R[1];
+Obj v__3519119_37= co->res;
+Obj v__3517804_37 = R[1];
 saveCont(co, clofun93, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3519034_37= co->res;
+Obj v__3519123_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3519033_37= co->res;
-Obj v__3517715_37 = R[1];
+Obj v__3519122_37= co->res;
+Obj v__3517804_37 = R[1];
 saveCont(co, clofun93, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519036_37= co->res;
+Obj v__3519125_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3519035_37= co->res;
-Obj v__3517715_37 = R[1];
+Obj v__3519124_37= co->res;
+Obj v__3517804_37 = R[1];
 saveCont(co, clofun93, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517715_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3519025_37= co->res;
-Obj v__3517714_37 = R[1];
-Obj v__3517715_37 = R[2];
-Obj v__3519026_37 = PRIM_EQ(v__3517714_37, getBinding(co, packageID, 121).name);
-if (True == v__3519026_37) {
-R[1] = v__3517715_37;
+Obj v__3519114_37= co->res;
+Obj v__3517803_37 = R[1];
+Obj v__3517804_37 = R[2];
+Obj v__3519115_37 = PRIM_EQ(v__3517803_37, getBinding(co, packageID, 121).name);
+if (True == v__3519115_37) {
+R[1] = v__3517804_37;
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3519029_37 = PRIM_EQ(v__3517714_37, getBinding(co, packageID, 109).name);
-if (True == v__3519029_37) {
-R[1] = v__3517715_37;
+Obj v__3519118_37 = PRIM_EQ(v__3517803_37, getBinding(co, packageID, 109).name);
+if (True == v__3519118_37) {
+R[1] = v__3517804_37;
 saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3519032_37 = PRIM_EQ(v__3517714_37, getBinding(co, packageID, 118).name);
-if (True == v__3519032_37) {
-R[1] = v__3517715_37;
+Obj v__3519121_37 = PRIM_EQ(v__3517803_37, getBinding(co, packageID, 118).name);
+if (True == v__3519121_37) {
+R[1] = v__3517804_37;
 saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3517715_37;
+R[1] = v__3517804_37;
 saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3408,13 +3408,13 @@ return;
 }
 case 10:
 {
-Obj v__3519024_37= co->res;
-Obj v__3517714_37 = R[1];
-Obj v__3517715_37 = R[2];
-R[1] = v__3517714_37;
-R[2] = v__3517715_37;
+Obj v__3519113_37= co->res;
+Obj v__3517803_37 = R[1];
+Obj v__3517804_37 = R[2];
+R[1] = v__3517803_37;
+R[2] = v__3517804_37;
 saveCont(co, clofun93, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519024_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519113_37);
 return;
 }
 }
@@ -3424,165 +3424,165 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517691_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518972_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518972_37) {
-Obj v__3518973_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518974_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518973_37);
-if (True == v__3518974_37) {
-Obj v__3518975_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518976_37 = PRIM_ISCONS(v__3518975_37);
-if (True == v__3518976_37) {
-Obj v__3518977_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518978_37 = PRIM_CAR(v__3518977_37);
-Obj v__3517711_37 = v__3518978_37;
-Obj v__3518979_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518980_37 = PRIM_CDR(v__3518979_37);
-Obj v__3518981_37 = PRIM_ISCONS(v__3518980_37);
-if (True == v__3518981_37) {
-Obj v__3518982_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518983_37 = PRIM_CDR(v__3518982_37);
-Obj v__3518984_37 = PRIM_CAR(v__3518983_37);
-Obj v__3517712_37 = v__3518984_37;
-Obj v__3518985_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518986_37 = PRIM_CDR(v__3518985_37);
-Obj v__3518987_37 = PRIM_CDR(v__3518986_37);
-Obj v__3518988_37 = PRIM_ISCONS(v__3518987_37);
-if (True == v__3518988_37) {
-Obj v__3518989_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518990_37 = PRIM_CDR(v__3518989_37);
-Obj v__3518991_37 = PRIM_CDR(v__3518990_37);
-Obj v__3518992_37 = PRIM_CAR(v__3518991_37);
-Obj v__3517713_37 = v__3518992_37;
-Obj v__3518993_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518994_37 = PRIM_CDR(v__3518993_37);
-Obj v__3518995_37 = PRIM_CDR(v__3518994_37);
-Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
-Obj v__3518997_37 = PRIM_EQ(Nil, v__3518996_37);
-if (True == v__3518997_37) {
-R[1] = v__3517711_37;
-R[2] = v__3517712_37;
-R[3] = v__3517713_37;
+Obj v__3517780_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3519061_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3519061_37) {
+Obj v__3519062_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3519063_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3519062_37);
+if (True == v__3519063_37) {
+Obj v__3519064_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519065_37 = PRIM_ISCONS(v__3519064_37);
+if (True == v__3519065_37) {
+Obj v__3519066_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519067_37 = PRIM_CAR(v__3519066_37);
+Obj v__3517800_37 = v__3519067_37;
+Obj v__3519068_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519069_37 = PRIM_CDR(v__3519068_37);
+Obj v__3519070_37 = PRIM_ISCONS(v__3519069_37);
+if (True == v__3519070_37) {
+Obj v__3519071_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519072_37 = PRIM_CDR(v__3519071_37);
+Obj v__3519073_37 = PRIM_CAR(v__3519072_37);
+Obj v__3517801_37 = v__3519073_37;
+Obj v__3519074_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519075_37 = PRIM_CDR(v__3519074_37);
+Obj v__3519076_37 = PRIM_CDR(v__3519075_37);
+Obj v__3519077_37 = PRIM_ISCONS(v__3519076_37);
+if (True == v__3519077_37) {
+Obj v__3519078_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519079_37 = PRIM_CDR(v__3519078_37);
+Obj v__3519080_37 = PRIM_CDR(v__3519079_37);
+Obj v__3519081_37 = PRIM_CAR(v__3519080_37);
+Obj v__3517802_37 = v__3519081_37;
+Obj v__3519082_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519083_37 = PRIM_CDR(v__3519082_37);
+Obj v__3519084_37 = PRIM_CDR(v__3519083_37);
+Obj v__3519085_37 = PRIM_CDR(v__3519084_37);
+Obj v__3519086_37 = PRIM_EQ(Nil, v__3519085_37);
+if (True == v__3519086_37) {
+R[1] = v__3517800_37;
+R[2] = v__3517801_37;
+R[3] = v__3517802_37;
 saveCont(co, clofun92, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517780_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517691_37);
+coraCall0(co, v__3517780_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519006_37= co->res;
+Obj v__3519095_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3519005_37= co->res;
-Obj v__3517713_37 = R[1];
+Obj v__3519094_37= co->res;
+Obj v__3517802_37 = R[1];
 saveCont(co, clofun92, 1, R);
-coraCall2(co, v__3519005_37, v__3517713_37, closureRef(R[0], 4));
+coraCall2(co, v__3519094_37, v__3517802_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519004_37= co->res;
-Obj v__3517713_37 = R[1];
-R[1] = v__3517713_37;
+Obj v__3519093_37= co->res;
+Obj v__3517802_37 = R[1];
+R[1] = v__3517802_37;
 saveCont(co, clofun92, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3519003_37= co->res;
-Obj v__3517713_37 = R[1];
-R[1] = v__3517713_37;
+Obj v__3519092_37= co->res;
+Obj v__3517802_37 = R[1];
+R[1] = v__3517802_37;
 saveCont(co, clofun92, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3519002_37= co->res;
-Obj v__3517712_37 = R[1];
-Obj v__3517713_37 = R[2];
-R[1] = v__3517713_37;
+Obj v__3519091_37= co->res;
+Obj v__3517801_37 = R[1];
+Obj v__3517802_37 = R[2];
+R[1] = v__3517802_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, v__3519002_37, v__3517712_37, closureRef(R[0], 4));
+coraCall2(co, v__3519091_37, v__3517801_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519001_37= co->res;
-Obj v__3517712_37 = R[1];
-Obj v__3517713_37 = R[2];
-R[1] = v__3517712_37;
-R[2] = v__3517713_37;
+Obj v__3519090_37= co->res;
+Obj v__3517801_37 = R[1];
+Obj v__3517802_37 = R[2];
+R[1] = v__3517801_37;
+R[2] = v__3517802_37;
 saveCont(co, clofun92, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3519000_37= co->res;
-Obj v__3517712_37 = R[1];
-Obj v__3517713_37 = R[2];
-R[1] = v__3517712_37;
-R[2] = v__3517713_37;
+Obj v__3519089_37= co->res;
+Obj v__3517801_37 = R[1];
+Obj v__3517802_37 = R[2];
+R[1] = v__3517801_37;
+R[2] = v__3517802_37;
 saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3518999_37= co->res;
-Obj v__3517711_37 = R[1];
-Obj v__3517712_37 = R[2];
-Obj v__3517713_37 = R[3];
-R[1] = v__3517712_37;
-R[2] = v__3517713_37;
+Obj v__3519088_37= co->res;
+Obj v__3517800_37 = R[1];
+Obj v__3517801_37 = R[2];
+Obj v__3517802_37 = R[3];
+R[1] = v__3517801_37;
+R[2] = v__3517802_37;
 saveCont(co, clofun92, 7, R);
-coraCall2(co, v__3518999_37, v__3517711_37, closureRef(R[0], 4));
+coraCall2(co, v__3519088_37, v__3517800_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3518998_37= co->res;
-Obj v__3517711_37 = R[1];
-Obj v__3517712_37 = R[2];
-Obj v__3517713_37 = R[3];
-R[1] = v__3517711_37;
-R[2] = v__3517712_37;
-R[3] = v__3517713_37;
+Obj v__3519087_37= co->res;
+Obj v__3517800_37 = R[1];
+Obj v__3517801_37 = R[2];
+Obj v__3517802_37 = R[3];
+R[1] = v__3517800_37;
+R[2] = v__3517801_37;
+R[3] = v__3517802_37;
 saveCont(co, clofun92, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3594,97 +3594,97 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517692_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3518934_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518934_37) {
-Obj v__3518935_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3518936_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518935_37);
-if (True == v__3518936_37) {
-Obj v__3518937_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518938_37 = PRIM_ISCONS(v__3518937_37);
-if (True == v__3518938_37) {
-Obj v__3518939_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518940_37 = PRIM_CAR(v__3518939_37);
-Obj v__3517707_37 = v__3518940_37;
-Obj v__3518941_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518942_37 = PRIM_CDR(v__3518941_37);
-Obj v__3518943_37 = PRIM_ISCONS(v__3518942_37);
-if (True == v__3518943_37) {
-Obj v__3518944_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518945_37 = PRIM_CDR(v__3518944_37);
-Obj v__3518946_37 = PRIM_CAR(v__3518945_37);
-Obj v__3517708_37 = v__3518946_37;
-Obj v__3518947_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518948_37 = PRIM_CDR(v__3518947_37);
-Obj v__3518949_37 = PRIM_CDR(v__3518948_37);
-Obj v__3518950_37 = PRIM_ISCONS(v__3518949_37);
-if (True == v__3518950_37) {
-Obj v__3518951_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518952_37 = PRIM_CDR(v__3518951_37);
-Obj v__3518953_37 = PRIM_CDR(v__3518952_37);
-Obj v__3518954_37 = PRIM_CAR(v__3518953_37);
-Obj v__3517709_37 = v__3518954_37;
-Obj v__3518955_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3518956_37 = PRIM_CDR(v__3518955_37);
-Obj v__3518957_37 = PRIM_CDR(v__3518956_37);
-Obj v__3518958_37 = PRIM_CDR(v__3518957_37);
-Obj v__3517710_37 = v__3518958_37;
-R[1] = v__3517709_37;
-R[2] = v__3517707_37;
-R[3] = v__3517708_37;
-R[4] = v__3517710_37;
+Obj v__3517781_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3519023_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3519023_37) {
+Obj v__3519024_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3519025_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3519024_37);
+if (True == v__3519025_37) {
+Obj v__3519026_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519027_37 = PRIM_ISCONS(v__3519026_37);
+if (True == v__3519027_37) {
+Obj v__3519028_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519029_37 = PRIM_CAR(v__3519028_37);
+Obj v__3517796_37 = v__3519029_37;
+Obj v__3519030_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519031_37 = PRIM_CDR(v__3519030_37);
+Obj v__3519032_37 = PRIM_ISCONS(v__3519031_37);
+if (True == v__3519032_37) {
+Obj v__3519033_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519034_37 = PRIM_CDR(v__3519033_37);
+Obj v__3519035_37 = PRIM_CAR(v__3519034_37);
+Obj v__3517797_37 = v__3519035_37;
+Obj v__3519036_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519037_37 = PRIM_CDR(v__3519036_37);
+Obj v__3519038_37 = PRIM_CDR(v__3519037_37);
+Obj v__3519039_37 = PRIM_ISCONS(v__3519038_37);
+if (True == v__3519039_37) {
+Obj v__3519040_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519041_37 = PRIM_CDR(v__3519040_37);
+Obj v__3519042_37 = PRIM_CDR(v__3519041_37);
+Obj v__3519043_37 = PRIM_CAR(v__3519042_37);
+Obj v__3517798_37 = v__3519043_37;
+Obj v__3519044_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3519045_37 = PRIM_CDR(v__3519044_37);
+Obj v__3519046_37 = PRIM_CDR(v__3519045_37);
+Obj v__3519047_37 = PRIM_CDR(v__3519046_37);
+Obj v__3517799_37 = v__3519047_37;
+R[1] = v__3517798_37;
+R[2] = v__3517796_37;
+R[3] = v__3517797_37;
+R[4] = v__3517799_37;
 saveCont(co, clofun91, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517692_37);
+coraCall0(co, v__3517781_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518971_37= co->res;
+Obj v__3519060_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3518970_37= co->res;
-Obj v__3517710_37 = R[1];
+Obj v__3519059_37= co->res;
+Obj v__3517799_37 = R[1];
 saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517710_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517799_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3518968_37= co->res;
-Obj v__3517710_37 = R[1];
-Obj v__3518969_37 = primNot(v__3518968_37);
-if (True == v__3518969_37) {
-R[1] = v__3517710_37;
+Obj v__3519057_37= co->res;
+Obj v__3517799_37 = R[1];
+Obj v__3519058_37 = primNot(v__3519057_37);
+if (True == v__3519058_37) {
+R[1] = v__3517799_37;
 saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3697,98 +3697,98 @@ return;
 }
 case 4:
 {
-Obj v__3518967_37= co->res;
-Obj v__3517710_37 = R[1];
-R[1] = v__3517710_37;
+Obj v__3519056_37= co->res;
+Obj v__3517799_37 = R[1];
+R[1] = v__3517799_37;
 saveCont(co, clofun91, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517710_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517799_37);
 return;
 }
 case 5:
 {
-Obj v__3518966_37= co->res;
-Obj v__3517710_37 = R[1];
-R[1] = v__3517710_37;
+Obj v__3519055_37= co->res;
+Obj v__3517799_37 = R[1];
+R[1] = v__3517799_37;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3518966_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519055_37);
 return;
 }
 case 6:
 {
-Obj v__3518965_37= co->res;
-Obj v__3517710_37 = R[1];
-R[1] = v__3517710_37;
+Obj v__3519054_37= co->res;
+Obj v__3517799_37 = R[1];
+R[1] = v__3517799_37;
 saveCont(co, clofun91, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517710_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517799_37);
 return;
 }
 case 7:
 {
-Obj v__3518964_37= co->res;
-Obj v__3517710_37 = R[1];
-R[1] = v__3517710_37;
+Obj v__3519053_37= co->res;
+Obj v__3517799_37 = R[1];
+R[1] = v__3517799_37;
 saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3518963_37= co->res;
-Obj v__3517708_37 = R[1];
-Obj v__3517710_37 = R[2];
-R[1] = v__3517710_37;
+Obj v__3519052_37= co->res;
+Obj v__3517797_37 = R[1];
+Obj v__3517799_37 = R[2];
+R[1] = v__3517799_37;
 saveCont(co, clofun91, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517708_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517797_37);
 return;
 }
 case 9:
 {
-Obj v__3518962_37= co->res;
-Obj v__3517708_37 = R[1];
-Obj v__3517710_37 = R[2];
-R[1] = v__3517708_37;
-R[2] = v__3517710_37;
+Obj v__3519051_37= co->res;
+Obj v__3517797_37 = R[1];
+Obj v__3517799_37 = R[2];
+R[1] = v__3517797_37;
+R[2] = v__3517799_37;
 saveCont(co, clofun91, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3518961_37= co->res;
-Obj v__3517707_37 = R[1];
-Obj v__3517708_37 = R[2];
-Obj v__3517710_37 = R[3];
-R[1] = v__3517708_37;
-R[2] = v__3517710_37;
+Obj v__3519050_37= co->res;
+Obj v__3517796_37 = R[1];
+Obj v__3517797_37 = R[2];
+Obj v__3517799_37 = R[3];
+R[1] = v__3517797_37;
+R[2] = v__3517799_37;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3517707_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3517796_37);
 return;
 }
 case 11:
 {
-Obj v__3518960_37= co->res;
-Obj v__3517707_37 = R[1];
-Obj v__3517708_37 = R[2];
-Obj v__3517710_37 = R[3];
-R[1] = v__3517707_37;
-R[2] = v__3517708_37;
-R[3] = v__3517710_37;
+Obj v__3519049_37= co->res;
+Obj v__3517796_37 = R[1];
+Obj v__3517797_37 = R[2];
+Obj v__3517799_37 = R[3];
+R[1] = v__3517796_37;
+R[2] = v__3517797_37;
+R[3] = v__3517799_37;
 saveCont(co, clofun91, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3518959_37= co->res;
-Obj v__3517709_37 = R[1];
-Obj v__3517707_37 = R[2];
-Obj v__3517708_37 = R[3];
-Obj v__3517710_37 = R[4];
-R[1] = v__3517707_37;
-R[2] = v__3517708_37;
-R[3] = v__3517710_37;
+Obj v__3519048_37= co->res;
+Obj v__3517798_37 = R[1];
+Obj v__3517796_37 = R[2];
+Obj v__3517797_37 = R[3];
+Obj v__3517799_37 = R[4];
+R[1] = v__3517796_37;
+R[2] = v__3517797_37;
+R[3] = v__3517799_37;
 saveCont(co, clofun91, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517709_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517798_37);
 return;
 }
 }
@@ -3798,96 +3798,96 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517693_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3518913_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518913_37) {
-Obj v__3518914_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518915_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518914_37);
-if (True == v__3518915_37) {
-Obj v__3518916_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518917_37 = PRIM_ISCONS(v__3518916_37);
-if (True == v__3518917_37) {
-Obj v__3518918_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518919_37 = PRIM_CAR(v__3518918_37);
-Obj v__3517705_37 = v__3518919_37;
-Obj v__3518920_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518921_37 = PRIM_CDR(v__3518920_37);
-Obj v__3518922_37 = PRIM_ISCONS(v__3518921_37);
-if (True == v__3518922_37) {
-Obj v__3518923_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518924_37 = PRIM_CDR(v__3518923_37);
-Obj v__3518925_37 = PRIM_CAR(v__3518924_37);
-Obj v__3517706_37 = v__3518925_37;
-Obj v__3518926_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518927_37 = PRIM_CDR(v__3518926_37);
-Obj v__3518928_37 = PRIM_CDR(v__3518927_37);
-Obj v__3518929_37 = PRIM_EQ(Nil, v__3518928_37);
-if (True == v__3518929_37) {
-R[1] = v__3517705_37;
-R[2] = v__3517706_37;
+Obj v__3517782_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3519002_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3519002_37) {
+Obj v__3519003_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3519004_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3519003_37);
+if (True == v__3519004_37) {
+Obj v__3519005_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519006_37 = PRIM_ISCONS(v__3519005_37);
+if (True == v__3519006_37) {
+Obj v__3519007_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519008_37 = PRIM_CAR(v__3519007_37);
+Obj v__3517794_37 = v__3519008_37;
+Obj v__3519009_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519010_37 = PRIM_CDR(v__3519009_37);
+Obj v__3519011_37 = PRIM_ISCONS(v__3519010_37);
+if (True == v__3519011_37) {
+Obj v__3519012_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519013_37 = PRIM_CDR(v__3519012_37);
+Obj v__3519014_37 = PRIM_CAR(v__3519013_37);
+Obj v__3517795_37 = v__3519014_37;
+Obj v__3519015_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3519016_37 = PRIM_CDR(v__3519015_37);
+Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
+Obj v__3519018_37 = PRIM_EQ(Nil, v__3519017_37);
+if (True == v__3519018_37) {
+R[1] = v__3517794_37;
+R[2] = v__3517795_37;
 saveCont(co, clofun90, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517693_37);
+coraCall0(co, v__3517782_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518933_37= co->res;
-Obj v__3517706_37 = R[1];
+Obj v__3519022_37= co->res;
+Obj v__3517795_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3518933_37, v__3517706_37, closureRef(R[0], 5));
+coraCall2(co, v__3519022_37, v__3517795_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3518932_37= co->res;
-Obj v__3517706_37 = R[1];
-R[1] = v__3517706_37;
+Obj v__3519021_37= co->res;
+Obj v__3517795_37 = R[1];
+R[1] = v__3517795_37;
 saveCont(co, clofun90, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518931_37= co->res;
-Obj v__3517706_37 = R[1];
-R[1] = v__3517706_37;
+Obj v__3519020_37= co->res;
+Obj v__3517795_37 = R[1];
+R[1] = v__3517795_37;
 saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3518930_37= co->res;
-Obj v__3517705_37 = R[1];
-Obj v__3517706_37 = R[2];
-R[1] = v__3517706_37;
+Obj v__3519019_37= co->res;
+Obj v__3517794_37 = R[1];
+Obj v__3517795_37 = R[2];
+R[1] = v__3517795_37;
 saveCont(co, clofun90, 3, R);
-coraCall2(co, v__3518930_37, v__3517705_37, closureRef(R[0], 5));
+coraCall2(co, v__3519019_37, v__3517794_37, closureRef(R[0], 5));
 return;
 }
 }
@@ -3897,74 +3897,74 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517694_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518899_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518899_37) {
-Obj v__3518900_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518901_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518900_37);
-if (True == v__3518901_37) {
-Obj v__3518902_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518903_37 = PRIM_ISCONS(v__3518902_37);
-if (True == v__3518903_37) {
-Obj v__3518904_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518905_37 = PRIM_CAR(v__3518904_37);
-Obj v__3517704_37 = v__3518905_37;
-Obj v__3518906_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518907_37 = PRIM_CDR(v__3518906_37);
-Obj v__3518908_37 = PRIM_EQ(Nil, v__3518907_37);
-if (True == v__3518908_37) {
-R[1] = v__3517704_37;
+Obj v__3517783_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518988_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518988_37) {
+Obj v__3518989_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518990_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518989_37);
+if (True == v__3518990_37) {
+Obj v__3518991_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518992_37 = PRIM_ISCONS(v__3518991_37);
+if (True == v__3518992_37) {
+Obj v__3518993_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518994_37 = PRIM_CAR(v__3518993_37);
+Obj v__3517793_37 = v__3518994_37;
+Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
+Obj v__3518997_37 = PRIM_EQ(Nil, v__3518996_37);
+if (True == v__3518997_37) {
+R[1] = v__3517793_37;
 saveCont(co, clofun89, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517783_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517694_37);
+coraCall0(co, v__3517783_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518912_37= co->res;
+Obj v__3519001_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518911_37= co->res;
+Obj v__3519000_37= co->res;
 saveCont(co, clofun89, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3518910_37= co->res;
-Obj v__3517704_37 = R[1];
+Obj v__3518999_37= co->res;
+Obj v__3517793_37 = R[1];
 saveCont(co, clofun89, 2, R);
-coraCall2(co, v__3518910_37, v__3517704_37, closureRef(R[0], 4));
+coraCall2(co, v__3518999_37, v__3517793_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3518909_37= co->res;
-Obj v__3517704_37 = R[1];
-R[1] = v__3517704_37;
+Obj v__3518998_37= co->res;
+Obj v__3517793_37 = R[1];
+R[1] = v__3517793_37;
 saveCont(co, clofun89, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3976,67 +3976,67 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517695_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518886_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518886_37) {
-Obj v__3518887_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518888_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518887_37);
-if (True == v__3518888_37) {
-Obj v__3518889_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518890_37 = PRIM_ISCONS(v__3518889_37);
-if (True == v__3518890_37) {
-Obj v__3518891_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518892_37 = PRIM_CAR(v__3518891_37);
-Obj v__3517703_37 = v__3518892_37;
-Obj v__3518893_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518894_37 = PRIM_CDR(v__3518893_37);
-Obj v__3518895_37 = PRIM_EQ(Nil, v__3518894_37);
-if (True == v__3518895_37) {
-R[1] = v__3517703_37;
+Obj v__3517784_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518975_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3518975_37) {
+Obj v__3518976_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3518977_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518976_37);
+if (True == v__3518977_37) {
+Obj v__3518978_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518979_37 = PRIM_ISCONS(v__3518978_37);
+if (True == v__3518979_37) {
+Obj v__3518980_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518981_37 = PRIM_CAR(v__3518980_37);
+Obj v__3517792_37 = v__3518981_37;
+Obj v__3518982_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3518983_37 = PRIM_CDR(v__3518982_37);
+Obj v__3518984_37 = PRIM_EQ(Nil, v__3518983_37);
+if (True == v__3518984_37) {
+R[1] = v__3517792_37;
 saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517695_37);
+coraCall0(co, v__3517784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517695_37);
+coraCall0(co, v__3517784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517695_37);
+coraCall0(co, v__3517784_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517695_37);
+coraCall0(co, v__3517784_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518898_37= co->res;
+Obj v__3518987_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518897_37= co->res;
-Obj v__3517703_37 = R[1];
+Obj v__3518986_37= co->res;
+Obj v__3517792_37 = R[1];
 saveCont(co, clofun88, 1, R);
-coraCall2(co, v__3518897_37, v__3517703_37, closureRef(R[0], 4));
+coraCall2(co, v__3518986_37, v__3517792_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518896_37= co->res;
-Obj v__3517703_37 = R[1];
-R[1] = v__3517703_37;
+Obj v__3518985_37= co->res;
+Obj v__3517792_37 = R[1];
+R[1] = v__3517792_37;
 saveCont(co, clofun88, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -4048,129 +4048,129 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517696_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518862_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518862_37) {
-Obj v__3518863_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518864_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518863_37);
-if (True == v__3518864_37) {
-Obj v__3518865_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518866_37 = PRIM_ISCONS(v__3518865_37);
-if (True == v__3518866_37) {
-Obj v__3518867_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518868_37 = PRIM_CAR(v__3518867_37);
-Obj v__3517700_37 = v__3518868_37;
-Obj v__3518869_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518870_37 = PRIM_CDR(v__3518869_37);
-Obj v__3518871_37 = PRIM_ISCONS(v__3518870_37);
-if (True == v__3518871_37) {
-Obj v__3518872_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518873_37 = PRIM_CDR(v__3518872_37);
-Obj v__3518874_37 = PRIM_CAR(v__3518873_37);
-Obj v__3517701_37 = v__3518874_37;
-Obj v__3518875_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518876_37 = PRIM_CDR(v__3518875_37);
-Obj v__3518877_37 = PRIM_CDR(v__3518876_37);
-Obj v__3517702_37 = v__3518877_37;
-R[1] = v__3517701_37;
-R[2] = v__3517700_37;
+Obj v__3517785_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3518951_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518951_37) {
+Obj v__3518952_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518953_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518952_37);
+if (True == v__3518953_37) {
+Obj v__3518954_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518955_37 = PRIM_ISCONS(v__3518954_37);
+if (True == v__3518955_37) {
+Obj v__3518956_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518957_37 = PRIM_CAR(v__3518956_37);
+Obj v__3517789_37 = v__3518957_37;
+Obj v__3518958_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518959_37 = PRIM_CDR(v__3518958_37);
+Obj v__3518960_37 = PRIM_ISCONS(v__3518959_37);
+if (True == v__3518960_37) {
+Obj v__3518961_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518962_37 = PRIM_CDR(v__3518961_37);
+Obj v__3518963_37 = PRIM_CAR(v__3518962_37);
+Obj v__3517790_37 = v__3518963_37;
+Obj v__3518964_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518965_37 = PRIM_CDR(v__3518964_37);
+Obj v__3518966_37 = PRIM_CDR(v__3518965_37);
+Obj v__3517791_37 = v__3518966_37;
+R[1] = v__3517790_37;
+R[2] = v__3517789_37;
 saveCont(co, clofun87, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517702_37};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517791_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517696_37);
+coraCall0(co, v__3517785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517696_37);
+coraCall0(co, v__3517785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517696_37);
+coraCall0(co, v__3517785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517696_37);
+coraCall0(co, v__3517785_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518885_37= co->res;
+Obj v__3518974_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518884_37= co->res;
-Obj v__3517700_37 = R[1];
+Obj v__3518973_37= co->res;
+Obj v__3517789_37 = R[1];
 saveCont(co, clofun87, 1, R);
-coraCall2(co, v__3518884_37, v__3517700_37, closureRef(R[0], 4));
+coraCall2(co, v__3518973_37, v__3517789_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518883_37= co->res;
-Obj v__3517700_37 = R[1];
-R[1] = v__3517700_37;
+Obj v__3518972_37= co->res;
+Obj v__3517789_37 = R[1];
+R[1] = v__3517789_37;
 saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518882_37= co->res;
-Obj v__3517700_37 = R[1];
-R[1] = v__3517700_37;
+Obj v__3518971_37= co->res;
+Obj v__3517789_37 = R[1];
+R[1] = v__3517789_37;
 saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3518881_37= co->res;
-Obj v__3517701_37 = R[1];
-Obj v__3517700_37 = R[2];
-R[1] = v__3517700_37;
+Obj v__3518970_37= co->res;
+Obj v__3517790_37 = R[1];
+Obj v__3517789_37 = R[2];
+R[1] = v__3517789_37;
 saveCont(co, clofun87, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517701_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517790_37);
 return;
 }
 case 6:
 {
-Obj v__3518880_37= co->res;
-Obj v__3517701_37 = R[1];
-Obj v__3517700_37 = R[2];
-R[1] = v__3517701_37;
-R[2] = v__3517700_37;
+Obj v__3518969_37= co->res;
+Obj v__3517790_37 = R[1];
+Obj v__3517789_37 = R[2];
+R[1] = v__3517790_37;
+R[2] = v__3517789_37;
 saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3518879_37= co->res;
-Obj v__3517701_37 = R[1];
-Obj v__3517700_37 = R[2];
-R[1] = v__3517701_37;
-R[2] = v__3517700_37;
+Obj v__3518968_37= co->res;
+Obj v__3517790_37 = R[1];
+Obj v__3517789_37 = R[2];
+R[1] = v__3517790_37;
+R[2] = v__3517789_37;
 saveCont(co, clofun87, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3518878_37= co->res;
-Obj v__3517701_37 = R[1];
-Obj v__3517700_37 = R[2];
-R[1] = v__3517701_37;
-R[2] = v__3517700_37;
+Obj v__3518967_37= co->res;
+Obj v__3517790_37 = R[1];
+Obj v__3517789_37 = R[2];
+R[1] = v__3517790_37;
+R[2] = v__3517789_37;
 saveCont(co, clofun87, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4182,16 +4182,16 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518839_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518839_37) {
-Obj v__3518840_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517697_37 = v__3518840_37;
-Obj v__3518841_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517698_37 = v__3518841_37;
-R[1] = v__3517697_37;
-R[2] = v__3517698_37;
+Obj v__3518928_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518928_37) {
+Obj v__3518929_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517786_37 = v__3518929_37;
+Obj v__3518930_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517787_37 = v__3518930_37;
+R[1] = v__3517786_37;
+R[2] = v__3517787_37;
 saveCont(co, clofun86, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517698_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517787_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4201,134 +4201,134 @@ return;
 }
 case 1:
 {
-Obj v__3518853_37= co->res;
+Obj v__3518942_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3518852_37= co->res;
-Obj v__3517699_37 = R[1];
+Obj v__3518941_37= co->res;
+Obj v__3517788_37 = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517699_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517788_37);
 return;
 }
 case 3:
 {
-Obj v__3518851_37= co->res;
-Obj v__3517699_37 = R[1];
-R[1] = v__3517699_37;
+Obj v__3518940_37= co->res;
+Obj v__3517788_37 = R[1];
+R[1] = v__3517788_37;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3518850_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-R[1] = v__3517699_37;
+Obj v__3518939_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+R[1] = v__3517788_37;
 saveCont(co, clofun86, 3, R);
-coraCall2(co, v__3518850_37, v__3517697_37, closureRef(R[0], 4));
+coraCall2(co, v__3518939_37, v__3517786_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3518849_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
+Obj v__3518938_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
 saveCont(co, clofun86, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3518848_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
+Obj v__3518937_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
 saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3518847_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
+Obj v__3518936_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
 saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3518846_37= co->res;
-Obj v__3517698_37 = R[1];
-Obj v__3517697_37 = R[2];
-Obj v__3517699_37 = R[3];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
+Obj v__3518935_37= co->res;
+Obj v__3517787_37 = R[1];
+Obj v__3517786_37 = R[2];
+Obj v__3517788_37 = R[3];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
 saveCont(co, clofun86, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517698_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517787_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518845_37= co->res;
-Obj v__3517698_37 = R[1];
-Obj v__3517697_37 = R[2];
-Obj v__3517699_37 = R[3];
-R[1] = v__3517698_37;
-R[2] = v__3517697_37;
-R[3] = v__3517699_37;
+Obj v__3518934_37= co->res;
+Obj v__3517787_37 = R[1];
+Obj v__3517786_37 = R[2];
+Obj v__3517788_37 = R[3];
+R[1] = v__3517787_37;
+R[2] = v__3517786_37;
+R[3] = v__3517788_37;
 saveCont(co, clofun86, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3518844_37= co->res;
-Obj v__3517698_37 = R[1];
-Obj v__3517697_37 = R[2];
-Obj v__3517699_37 = R[3];
-R[1] = v__3517698_37;
-R[2] = v__3517697_37;
-R[3] = v__3517699_37;
+Obj v__3518933_37= co->res;
+Obj v__3517787_37 = R[1];
+Obj v__3517786_37 = R[2];
+Obj v__3517788_37 = R[3];
+R[1] = v__3517787_37;
+R[2] = v__3517786_37;
+R[3] = v__3517788_37;
 saveCont(co, clofun86, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517699_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517788_37);
 return;
 }
 case 11:
 {
-Obj v__3518861_37= co->res;
+Obj v__3518950_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3518860_37= co->res;
-Obj v__3517698_37 = R[1];
+Obj v__3518949_37= co->res;
+Obj v__3517787_37 = R[1];
 saveCont(co, clofun86, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517698_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517787_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3518858_37= co->res;
-Obj v__3517699_37 = R[1];
-Obj v__3517698_37 = R[2];
-Obj v__3518859_37 = PRIM_GT(v__3517699_37, MAKE_NUMBER(0));
-if (True == v__3518859_37) {
-R[1] = v__3517698_37;
+Obj v__3518947_37= co->res;
+Obj v__3517788_37 = R[1];
+Obj v__3517787_37 = R[2];
+Obj v__3518948_37 = PRIM_GT(v__3517788_37, MAKE_NUMBER(0));
+if (True == v__3518948_37) {
+R[1] = v__3517787_37;
 saveCont(co, clofun86, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4341,73 +4341,73 @@ return;
 }
 case 14:
 {
-Obj v__3518857_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-Obj v__3517698_37 = R[3];
-R[1] = v__3517699_37;
-R[2] = v__3517698_37;
+Obj v__3518946_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+Obj v__3517787_37 = R[3];
+R[1] = v__3517788_37;
+R[2] = v__3517787_37;
 saveCont(co, clofun86, 13, R);
-coraCall2(co, v__3518857_37, v__3517697_37, closureRef(R[0], 4));
+coraCall2(co, v__3518946_37, v__3517786_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3518856_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-Obj v__3517698_37 = R[3];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
-R[3] = v__3517698_37;
+Obj v__3518945_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+Obj v__3517787_37 = R[3];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
+R[3] = v__3517787_37;
 saveCont(co, clofun86, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3518855_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-Obj v__3517698_37 = R[3];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
-R[3] = v__3517698_37;
+Obj v__3518944_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+Obj v__3517787_37 = R[3];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
+R[3] = v__3517787_37;
 saveCont(co, clofun86, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3518854_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517699_37 = R[2];
-Obj v__3517698_37 = R[3];
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
-R[3] = v__3517698_37;
+Obj v__3518943_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517788_37 = R[2];
+Obj v__3517787_37 = R[3];
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
+R[3] = v__3517787_37;
 saveCont(co, clofun86, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517699_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517788_37);
 return;
 }
 case 18:
 {
-Obj v__3518842_37= co->res;
-Obj v__3517697_37 = R[1];
-Obj v__3517698_37 = R[2];
-Obj v__3517699_37 = v__3518842_37;
-Obj v__3518843_37 = PRIM_GT(v__3517699_37, MAKE_NUMBER(4));
-if (True == v__3518843_37) {
-R[1] = v__3517698_37;
-R[2] = v__3517697_37;
-R[3] = v__3517699_37;
+Obj v__3518931_37= co->res;
+Obj v__3517786_37 = R[1];
+Obj v__3517787_37 = R[2];
+Obj v__3517788_37 = v__3518931_37;
+Obj v__3518932_37 = PRIM_GT(v__3517788_37, MAKE_NUMBER(4));
+if (True == v__3518932_37) {
+R[1] = v__3517787_37;
+R[2] = v__3517786_37;
+R[3] = v__3517788_37;
 saveCont(co, clofun86, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3517697_37;
-R[2] = v__3517699_37;
-R[3] = v__3517698_37;
+R[1] = v__3517786_37;
+R[2] = v__3517788_37;
+R[3] = v__3517787_37;
 saveCont(co, clofun86, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4446,15 +4446,15 @@ return;
 }
 case 1:
 {
-Obj v__3518834_37= co->res;
+Obj v__3518923_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518835_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518835_37);
+Obj v__3518924_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518924_37);
 return;
 }
 case 2:
 {
-Obj v__3518833_37= co->res;
+Obj v__3518922_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun84, 1, R);
@@ -4463,7 +4463,7 @@ return;
 }
 case 3:
 {
-Obj v__3518832_37= co->res;
+Obj v__3518921_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun84, 2, R);
@@ -4472,7 +4472,7 @@ return;
 }
 case 4:
 {
-Obj v__3518831_37= co->res;
+Obj v__3518920_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun84, 3, R);
@@ -4481,7 +4481,7 @@ return;
 }
 case 5:
 {
-Obj v__3518830_37= co->res;
+Obj v__3518919_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4523,15 +4523,15 @@ return;
 }
 case 1:
 {
-Obj v__3518827_37= co->res;
+Obj v__3518916_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518828_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518828_37);
+Obj v__3518917_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
+coraReturn(co, v__3518917_37);
 return;
 }
 case 2:
 {
-Obj v__3518826_37= co->res;
+Obj v__3518915_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun82, 1, R);
@@ -4540,7 +4540,7 @@ return;
 }
 case 3:
 {
-Obj v__3518825_37= co->res;
+Obj v__3518914_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_acc;
@@ -4551,7 +4551,7 @@ return;
 }
 case 4:
 {
-Obj v__3518824_37= co->res;
+Obj v__3518913_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4562,7 +4562,7 @@ return;
 }
 case 5:
 {
-Obj v__3518823_37= co->res;
+Obj v__3518912_37= co->res;
 Obj v_v = R[1];
 Obj v_acc = R[2];
 R[1] = v_v;
@@ -4603,24 +4603,24 @@ return;
 }
 case 1:
 {
-Obj v__3518816_37= co->res;
+Obj v__3518905_37= co->res;
 Obj v_idx = R[1];
 Obj v_globals = R[2];
 Obj v_sym = R[3];
-if (True == v__3518816_37) {
+if (True == v__3518905_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3518817_37 = PRIM_CAR(v_globals);
-Obj v__3518818_37 = PRIM_EQ(v_sym, v__3518817_37);
-if (True == v__3518818_37) {
+Obj v__3518906_37 = PRIM_CAR(v_globals);
+Obj v__3518907_37 = PRIM_EQ(v_sym, v__3518906_37);
+if (True == v__3518907_37) {
 coraReturn(co, v_idx);
 return;
 } else {
-Obj v__3518819_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v__3518820_37 = PRIM_CDR(v_globals);
+Obj v__3518908_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
+Obj v__3518909_37 = PRIM_CDR(v_globals);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3518819_37, v_sym, v__3518820_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3518908_37, v_sym, v__3518909_37);
 return;
 }
 }
@@ -4642,31 +4642,31 @@ return;
 }
 case 1:
 {
-Obj v__3518812_37= co->res;
+Obj v__3518901_37= co->res;
 Obj v_sym = R[1];
-Obj v__3517684_37 = R[2];
+Obj v__3517773_37 = R[2];
 Obj v_globals = R[3];
-if (True == v__3518812_37) {
+if (True == v__3518901_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518813_37 = makeCons(co->gc, v_sym, v__3517684_37);
-Obj v__3518814_37 = primSet(co, v_globals, v__3518813_37);
-coraReturn(co, v__3518814_37);
+Obj v__3518902_37 = makeCons(co->gc, v_sym, v__3517773_37);
+Obj v__3518903_37 = primSet(co, v_globals, v__3518902_37);
+coraReturn(co, v__3518903_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518811_37= co->res;
+Obj v__3518900_37= co->res;
 Obj v_sym = R[1];
 Obj v_globals = R[2];
-Obj v__3517684_37 = v__3518811_37;
+Obj v__3517773_37 = v__3518900_37;
 R[1] = v_sym;
-R[2] = v__3517684_37;
+R[2] = v__3517773_37;
 R[3] = v_globals;
 saveCont(co, clofun79, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_sym, v__3517684_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_sym, v__3517773_37);
 return;
 }
 }
@@ -4678,24 +4678,24 @@ case 0:
 {
 Obj v_x = R[1];
 Obj v_k = R[2];
-Obj v__3518804_37 = primGenSym(co);
-Obj v__3517683_37 = v__3518804_37;
+Obj v__3518893_37 = primGenSym(co);
+Obj v__3517772_37 = v__3518893_37;
 R[1] = v_x;
-R[2] = v__3517683_37;
+R[2] = v__3517772_37;
 saveCont(co, clofun78, 1, R);
-coraCall1(co, v_k, v__3517683_37);
+coraCall1(co, v_k, v__3517772_37);
 return;
 }
 case 1:
 {
-Obj v__3518805_37= co->res;
+Obj v__3518894_37= co->res;
 Obj v_x = R[1];
-Obj v__3517683_37 = R[2];
-Obj v__3518806_37 = makeCons(co->gc, v__3518805_37, Nil);
-Obj v__3518807_37 = makeCons(co->gc, v_x, v__3518806_37);
-Obj v__3518808_37 = makeCons(co->gc, v__3517683_37, v__3518807_37);
-Obj v__3518809_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518808_37);
-coraReturn(co, v__3518809_37);
+Obj v__3517772_37 = R[2];
+Obj v__3518895_37 = makeCons(co->gc, v__3518894_37, Nil);
+Obj v__3518896_37 = makeCons(co->gc, v_x, v__3518895_37);
+Obj v__3518897_37 = makeCons(co->gc, v__3517772_37, v__3518896_37);
+Obj v__3518898_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518897_37);
+coraReturn(co, v__3518898_37);
 return;
 }
 }
@@ -4715,39 +4715,39 @@ return;
 }
 case 1:
 {
-Obj v__3518802_37= co->res;
+Obj v__3518891_37= co->res;
 Obj v_v = R[1];
-Obj v__3517682_37 = R[2];
+Obj v__3517771_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v__3517682_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v__3517771_37);
 return;
 }
 case 2:
 {
-Obj v__3518797_37= co->res;
+Obj v__3518886_37= co->res;
 Obj v_val = R[1];
-Obj v__3517680_37 = R[2];
+Obj v__3517769_37 = R[2];
 Obj v_v = R[3];
-Obj v__3517681_37 = v__3518797_37;
-Obj v__3518798_37 = makeCons(co->gc, v_val, Nil);
-Obj v__3518799_37 = makeCons(co->gc, v__3517680_37, v__3518798_37);
-Obj v__3518800_37 = makeCons(co->gc, v__3518799_37, v__3517681_37);
-Obj v__3517682_37 = v__3518800_37;
-Obj v__3518801_37 = PRIM_ADD(v__3517680_37, MAKE_NUMBER(1));
+Obj v__3517770_37 = v__3518886_37;
+Obj v__3518887_37 = makeCons(co->gc, v_val, Nil);
+Obj v__3518888_37 = makeCons(co->gc, v__3517769_37, v__3518887_37);
+Obj v__3518889_37 = makeCons(co->gc, v__3518888_37, v__3517770_37);
+Obj v__3517771_37 = v__3518889_37;
+Obj v__3518890_37 = PRIM_ADD(v__3517769_37, MAKE_NUMBER(1));
 R[1] = v_v;
-R[2] = v__3517682_37;
+R[2] = v__3517771_37;
 saveCont(co, clofun77, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v__3518801_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v__3518890_37);
 return;
 }
 case 3:
 {
-Obj v__3518796_37= co->res;
+Obj v__3518885_37= co->res;
 Obj v_val = R[1];
 Obj v_v = R[2];
-Obj v__3517680_37 = v__3518796_37;
+Obj v__3517769_37 = v__3518885_37;
 R[1] = v_val;
-R[2] = v__3517680_37;
+R[2] = v__3517769_37;
 R[3] = v_v;
 saveCont(co, clofun77, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
@@ -4760,195 +4760,195 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517454_37 = R[1];
-Obj v__3517455_37 = R[2];
-Obj v__3517672_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3517454_37, v__3517455_37);
-Obj v__3518747_37 = PRIM_ISCONS(v__3517455_37);
-if (True == v__3518747_37) {
-Obj v__3518748_37 = PRIM_CAR(v__3517455_37);
-Obj v__3518749_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518748_37);
-if (True == v__3518749_37) {
-Obj v__3518750_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518751_37 = PRIM_ISCONS(v__3518750_37);
-if (True == v__3518751_37) {
-Obj v__3518752_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518753_37 = PRIM_CAR(v__3518752_37);
-Obj v__3518754_37 = PRIM_ISCONS(v__3518753_37);
-if (True == v__3518754_37) {
-Obj v__3518755_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518756_37 = PRIM_CAR(v__3518755_37);
-Obj v__3518757_37 = PRIM_CAR(v__3518756_37);
-Obj v__3518758_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518757_37);
-if (True == v__3518758_37) {
-Obj v__3518759_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518760_37 = PRIM_CAR(v__3518759_37);
-Obj v__3518761_37 = PRIM_CDR(v__3518760_37);
-Obj v__3518762_37 = PRIM_ISCONS(v__3518761_37);
-if (True == v__3518762_37) {
-Obj v__3518763_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518764_37 = PRIM_CAR(v__3518763_37);
-Obj v__3518765_37 = PRIM_CDR(v__3518764_37);
-Obj v__3518766_37 = PRIM_CAR(v__3518765_37);
-Obj v__3517673_37 = v__3518766_37;
-Obj v__3518767_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518768_37 = PRIM_CAR(v__3518767_37);
-Obj v__3518769_37 = PRIM_CDR(v__3518768_37);
-Obj v__3518770_37 = PRIM_CDR(v__3518769_37);
-Obj v__3518771_37 = PRIM_ISCONS(v__3518770_37);
-if (True == v__3518771_37) {
-Obj v__3518772_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518773_37 = PRIM_CAR(v__3518772_37);
-Obj v__3518774_37 = PRIM_CDR(v__3518773_37);
-Obj v__3518775_37 = PRIM_CDR(v__3518774_37);
-Obj v__3518776_37 = PRIM_CAR(v__3518775_37);
-Obj v__3517674_37 = v__3518776_37;
-Obj v__3518777_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518778_37 = PRIM_CAR(v__3518777_37);
-Obj v__3518779_37 = PRIM_CDR(v__3518778_37);
-Obj v__3518780_37 = PRIM_CDR(v__3518779_37);
-Obj v__3518781_37 = PRIM_CDR(v__3518780_37);
-Obj v__3518782_37 = PRIM_EQ(Nil, v__3518781_37);
-if (True == v__3518782_37) {
-Obj v__3518783_37 = PRIM_CDR(v__3517455_37);
-Obj v__3518784_37 = PRIM_CDR(v__3518783_37);
-Obj v__3517675_37 = v__3518784_37;
-R[1] = v__3517454_37;
-R[2] = v__3517673_37;
-R[3] = v__3517675_37;
+Obj v__3517541_37 = R[1];
+Obj v__3517542_37 = R[2];
+Obj v__3517761_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3517541_37, v__3517542_37);
+Obj v__3518836_37 = PRIM_ISCONS(v__3517542_37);
+if (True == v__3518836_37) {
+Obj v__3518837_37 = PRIM_CAR(v__3517542_37);
+Obj v__3518838_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518837_37);
+if (True == v__3518838_37) {
+Obj v__3518839_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518840_37 = PRIM_ISCONS(v__3518839_37);
+if (True == v__3518840_37) {
+Obj v__3518841_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518842_37 = PRIM_CAR(v__3518841_37);
+Obj v__3518843_37 = PRIM_ISCONS(v__3518842_37);
+if (True == v__3518843_37) {
+Obj v__3518844_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518845_37 = PRIM_CAR(v__3518844_37);
+Obj v__3518846_37 = PRIM_CAR(v__3518845_37);
+Obj v__3518847_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518846_37);
+if (True == v__3518847_37) {
+Obj v__3518848_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518849_37 = PRIM_CAR(v__3518848_37);
+Obj v__3518850_37 = PRIM_CDR(v__3518849_37);
+Obj v__3518851_37 = PRIM_ISCONS(v__3518850_37);
+if (True == v__3518851_37) {
+Obj v__3518852_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518853_37 = PRIM_CAR(v__3518852_37);
+Obj v__3518854_37 = PRIM_CDR(v__3518853_37);
+Obj v__3518855_37 = PRIM_CAR(v__3518854_37);
+Obj v__3517762_37 = v__3518855_37;
+Obj v__3518856_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518857_37 = PRIM_CAR(v__3518856_37);
+Obj v__3518858_37 = PRIM_CDR(v__3518857_37);
+Obj v__3518859_37 = PRIM_CDR(v__3518858_37);
+Obj v__3518860_37 = PRIM_ISCONS(v__3518859_37);
+if (True == v__3518860_37) {
+Obj v__3518861_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518862_37 = PRIM_CAR(v__3518861_37);
+Obj v__3518863_37 = PRIM_CDR(v__3518862_37);
+Obj v__3518864_37 = PRIM_CDR(v__3518863_37);
+Obj v__3518865_37 = PRIM_CAR(v__3518864_37);
+Obj v__3517763_37 = v__3518865_37;
+Obj v__3518866_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518867_37 = PRIM_CAR(v__3518866_37);
+Obj v__3518868_37 = PRIM_CDR(v__3518867_37);
+Obj v__3518869_37 = PRIM_CDR(v__3518868_37);
+Obj v__3518870_37 = PRIM_CDR(v__3518869_37);
+Obj v__3518871_37 = PRIM_EQ(Nil, v__3518870_37);
+if (True == v__3518871_37) {
+Obj v__3518872_37 = PRIM_CDR(v__3517542_37);
+Obj v__3518873_37 = PRIM_CDR(v__3518872_37);
+Obj v__3517764_37 = v__3518873_37;
+R[1] = v__3517541_37;
+R[2] = v__3517762_37;
+R[3] = v__3517764_37;
 saveCont(co, clofun76, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517454_37, v__3517674_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517541_37, v__3517763_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3517761_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518790_37= co->res;
-Obj v__3517679_37 = R[1];
-Obj v__3517675_37 = R[2];
-Obj v__3517677_37 = R[3];
-Obj v__3518791_37 = makeCons(co->gc, v__3517679_37, v__3517675_37);
-Obj v__3518792_37 = makeCons(co->gc, v__3518790_37, v__3518791_37);
-Obj v__3518793_37 = makeCons(co->gc, v__3517677_37, v__3518792_37);
-Obj v__3518794_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518793_37);
-coraReturn(co, v__3518794_37);
+Obj v__3518879_37= co->res;
+Obj v__3517768_37 = R[1];
+Obj v__3517764_37 = R[2];
+Obj v__3517766_37 = R[3];
+Obj v__3518880_37 = makeCons(co->gc, v__3517768_37, v__3517764_37);
+Obj v__3518881_37 = makeCons(co->gc, v__3518879_37, v__3518880_37);
+Obj v__3518882_37 = makeCons(co->gc, v__3517766_37, v__3518881_37);
+Obj v__3518883_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518882_37);
+coraReturn(co, v__3518883_37);
 return;
 }
 case 2:
 {
-Obj v__3518789_37= co->res;
-Obj v__3517673_37 = R[1];
-Obj v__3517679_37 = R[2];
-Obj v__3517675_37 = R[3];
-Obj v__3517677_37 = R[4];
-R[1] = v__3517679_37;
-R[2] = v__3517675_37;
-R[3] = v__3517677_37;
+Obj v__3518878_37= co->res;
+Obj v__3517762_37 = R[1];
+Obj v__3517768_37 = R[2];
+Obj v__3517764_37 = R[3];
+Obj v__3517766_37 = R[4];
+R[1] = v__3517768_37;
+R[2] = v__3517764_37;
+R[3] = v__3517766_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517673_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517762_37);
 return;
 }
 case 3:
 {
-Obj v__3518788_37= co->res;
-Obj v__3517454_37 = R[1];
-Obj v__3517678_37 = R[2];
-Obj v__3517673_37 = R[3];
-Obj v__3517675_37 = R[4];
-Obj v__3517677_37 = R[5];
-Obj v__3517679_37 = v__3518788_37;
-R[1] = v__3517673_37;
-R[2] = v__3517679_37;
-R[3] = v__3517675_37;
-R[4] = v__3517677_37;
+Obj v__3518877_37= co->res;
+Obj v__3517541_37 = R[1];
+Obj v__3517767_37 = R[2];
+Obj v__3517762_37 = R[3];
+Obj v__3517764_37 = R[4];
+Obj v__3517766_37 = R[5];
+Obj v__3517768_37 = v__3518877_37;
+R[1] = v__3517762_37;
+R[2] = v__3517768_37;
+R[3] = v__3517764_37;
+R[4] = v__3517766_37;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517454_37, v__3517678_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517541_37, v__3517767_37);
 return;
 }
 case 4:
 {
-Obj v__3518787_37= co->res;
-Obj v__3517454_37 = R[1];
-Obj v__3517673_37 = R[2];
-Obj v__3517675_37 = R[3];
-Obj v__3517677_37 = R[4];
-Obj v__3517678_37 = v__3518787_37;
-R[1] = v__3517454_37;
-R[2] = v__3517678_37;
-R[3] = v__3517673_37;
-R[4] = v__3517675_37;
-R[5] = v__3517677_37;
+Obj v__3518876_37= co->res;
+Obj v__3517541_37 = R[1];
+Obj v__3517762_37 = R[2];
+Obj v__3517764_37 = R[3];
+Obj v__3517766_37 = R[4];
+Obj v__3517767_37 = v__3518876_37;
+R[1] = v__3517541_37;
+R[2] = v__3517767_37;
+R[3] = v__3517762_37;
+R[4] = v__3517764_37;
+R[5] = v__3517766_37;
 saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3517678_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3517767_37);
 return;
 }
 case 5:
 {
-Obj v__3518786_37= co->res;
-Obj v__3517676_37 = R[1];
-Obj v__3517454_37 = R[2];
-Obj v__3517673_37 = R[3];
-Obj v__3517675_37 = R[4];
-Obj v__3517677_37 = v__3518786_37;
-R[1] = v__3517454_37;
-R[2] = v__3517673_37;
-R[3] = v__3517675_37;
-R[4] = v__3517677_37;
+Obj v__3518875_37= co->res;
+Obj v__3517765_37 = R[1];
+Obj v__3517541_37 = R[2];
+Obj v__3517762_37 = R[3];
+Obj v__3517764_37 = R[4];
+Obj v__3517766_37 = v__3518875_37;
+R[1] = v__3517541_37;
+R[2] = v__3517762_37;
+R[3] = v__3517764_37;
+R[4] = v__3517766_37;
 saveCont(co, clofun76, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517673_37, v__3517676_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517762_37, v__3517765_37);
 return;
 }
 case 6:
 {
-Obj v__3518785_37= co->res;
-Obj v__3517454_37 = R[1];
-Obj v__3517673_37 = R[2];
-Obj v__3517675_37 = R[3];
-Obj v__3517676_37 = v__3518785_37;
-R[1] = v__3517676_37;
-R[2] = v__3517454_37;
-R[3] = v__3517673_37;
-R[4] = v__3517675_37;
+Obj v__3518874_37= co->res;
+Obj v__3517541_37 = R[1];
+Obj v__3517762_37 = R[2];
+Obj v__3517764_37 = R[3];
+Obj v__3517765_37 = v__3518874_37;
+R[1] = v__3517765_37;
+R[2] = v__3517541_37;
+R[3] = v__3517762_37;
+R[4] = v__3517764_37;
 saveCont(co, clofun76, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517454_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517541_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4958,8 +4958,8 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518745_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518745_37) {
+Obj v__3518834_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3518834_37) {
 saveCont(co, clofun75, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4970,9 +4970,9 @@ return;
 }
 case 1:
 {
-Obj v__3518746_37= co->res;
+Obj v__3518835_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518746_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518835_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4990,30 +4990,30 @@ return;
 }
 case 1:
 {
-Obj v__3518743_37= co->res;
-Obj v__3518742_37 = R[1];
+Obj v__3518832_37= co->res;
+Obj v__3518831_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun73, 2, 0), v__3518742_37, v__3518743_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun73, 2, 0), v__3518831_37, v__3518832_37);
 return;
 }
 case 2:
 {
-Obj v__3518737_37= co->res;
+Obj v__3518826_37= co->res;
 Obj v_lam = R[1];
-Obj v__3517670_37 = v__3518737_37;
-Obj v__3518742_37 = PRIM_ADD(v__3517670_37, MAKE_NUMBER(1));
-R[1] = v__3518742_37;
+Obj v__3517759_37 = v__3518826_37;
+Obj v__3518831_37 = PRIM_ADD(v__3517759_37, MAKE_NUMBER(1));
+R[1] = v__3518831_37;
 saveCont(co, clofun74, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
 return;
 }
 case 3:
 {
-Obj v__3518736_37= co->res;
+Obj v__3518825_37= co->res;
 Obj v_lam = R[1];
 R[1] = v_lam;
 saveCont(co, clofun74, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518736_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518825_37);
 return;
 }
 }
@@ -5032,13 +5032,13 @@ return;
 }
 case 1:
 {
-Obj v__3518739_37= co->res;
+Obj v__3518828_37= co->res;
 Obj v_acc = R[1];
-Obj v__3518740_37 = PRIM_ADD(v__3518739_37, MAKE_NUMBER(1));
-Obj v__3517671_37 = v__3518740_37;
-Obj v__3518741_37 = PRIM_GT(v__3517671_37, v_acc);
-if (True == v__3518741_37) {
-coraReturn(co, v__3517671_37);
+Obj v__3518829_37 = PRIM_ADD(v__3518828_37, MAKE_NUMBER(1));
+Obj v__3517760_37 = v__3518829_37;
+Obj v__3518830_37 = PRIM_GT(v__3517760_37, v_acc);
+if (True == v__3518830_37) {
+coraReturn(co, v__3517760_37);
 return;
 } else {
 coraReturn(co, v_acc);
@@ -5047,11 +5047,11 @@ return;
 }
 case 2:
 {
-Obj v__3518738_37= co->res;
+Obj v__3518827_37= co->res;
 Obj v_acc = R[1];
 R[1] = v_acc;
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518738_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518827_37);
 return;
 }
 }
@@ -5083,12 +5083,12 @@ return;
 }
 case 1:
 {
-Obj v__3518731_37= co->res;
+Obj v__3518820_37= co->res;
 Obj v_body1 = R[1];
-Obj v__3518732_37 = makeCons(co->gc, v_body1, v__3518731_37);
-Obj v__3518733_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518732_37);
-Obj v__3518734_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518733_37);
-coraReturn(co, v__3518734_37);
+Obj v__3518821_37 = makeCons(co->gc, v_body1, v__3518820_37);
+Obj v__3518822_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518821_37);
+Obj v__3518823_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518822_37);
+coraReturn(co, v__3518823_37);
 return;
 }
 }
@@ -5098,24 +5098,24 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517448_37 = R[1];
-Obj v__3517449_37 = R[2];
-Obj v__3517450_37 = R[3];
-Obj v__3517451_37 = R[4];
-Obj v__3518725_37 = PRIM_EQ(Nil, v__3517448_37);
-if (True == v__3518725_37) {
+Obj v__3517535_37 = R[1];
+Obj v__3517536_37 = R[2];
+Obj v__3517537_37 = R[3];
+Obj v__3517538_37 = R[4];
+Obj v__3518814_37 = PRIM_EQ(Nil, v__3517535_37);
+if (True == v__3518814_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3517451_37, v__3517450_37, v__3517449_37);
+coraCall2(co, v__3517538_37, v__3517537_37, v__3517536_37);
 return;
 } else {
-Obj v__3518726_37 = PRIM_ISCONS(v__3517448_37);
-if (True == v__3518726_37) {
-Obj v__3518727_37 = PRIM_CAR(v__3517448_37);
-Obj v__3517668_37 = v__3518727_37;
-Obj v__3518728_37 = PRIM_CDR(v__3517448_37);
-Obj v__3517669_37 = v__3518728_37;
+Obj v__3518815_37 = PRIM_ISCONS(v__3517535_37);
+if (True == v__3518815_37) {
+Obj v__3518816_37 = PRIM_CAR(v__3517535_37);
+Obj v__3517757_37 = v__3518816_37;
+Obj v__3518817_37 = PRIM_CDR(v__3517535_37);
+Obj v__3517758_37 = v__3518817_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517668_37, v__3517449_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3517669_37, v__3517450_37, v__3517451_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517757_37, v__3517536_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3517758_37, v__3517537_37, v__3517538_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5146,9 +5146,9 @@ case 0:
 {
 Obj v_args1 = R[1];
 Obj v_conts2 = R[2];
-Obj v__3518729_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v__3518818_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518729_37, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v__3518818_37, v_conts2);
 return;
 }
 }
@@ -5158,33 +5158,33 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517442_37 = R[1];
-Obj v__3517443_37 = R[2];
-Obj v__3517444_37 = R[3];
-Obj v__3517661_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3517442_37, v__3517443_37, v__3517444_37);
-Obj v__3518722_37 = primIsSymbol(v__3517442_37);
-if (True == v__3518722_37) {
+Obj v__3517529_37 = R[1];
+Obj v__3517530_37 = R[2];
+Obj v__3517531_37 = R[3];
+Obj v__3517750_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3517529_37, v__3517530_37, v__3517531_37);
+Obj v__3518811_37 = primIsSymbol(v__3517529_37);
+if (True == v__3518811_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517661_37, True);
+coraCall1(co, v__3517750_37, True);
 return;
 } else {
-R[1] = v__3517661_37;
+R[1] = v__3517750_37;
 saveCont(co, clofun67, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517442_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517529_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518723_37= co->res;
-Obj v__3517661_37 = R[1];
-if (True == v__3518723_37) {
+Obj v__3518812_37= co->res;
+Obj v__3517750_37 = R[1];
+if (True == v__3518812_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517661_37, True);
+coraCall1(co, v__3517750_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517661_37, False);
+coraCall1(co, v__3517750_37, False);
 return;
 }
 }
@@ -5195,63 +5195,63 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517660_37 = R[1];
-if (True == v__3517660_37) {
+Obj v__3517749_37 = R[1];
+if (True == v__3517749_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517662_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518698_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518698_37) {
-Obj v__3518699_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518700_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518699_37);
-if (True == v__3518700_37) {
-Obj v__3518701_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518702_37 = PRIM_ISCONS(v__3518701_37);
-if (True == v__3518702_37) {
-Obj v__3518703_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518704_37 = PRIM_CAR(v__3518703_37);
-Obj v__3517665_37 = v__3518704_37;
-Obj v__3518705_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518706_37 = PRIM_CDR(v__3518705_37);
-Obj v__3518707_37 = PRIM_ISCONS(v__3518706_37);
-if (True == v__3518707_37) {
-Obj v__3518708_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518709_37 = PRIM_CDR(v__3518708_37);
-Obj v__3518710_37 = PRIM_CAR(v__3518709_37);
-Obj v__3517666_37 = v__3518710_37;
-Obj v__3518711_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518712_37 = PRIM_CDR(v__3518711_37);
-Obj v__3518713_37 = PRIM_CDR(v__3518712_37);
-Obj v__3518714_37 = PRIM_EQ(Nil, v__3518713_37);
-if (True == v__3518714_37) {
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517666_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3517665_37));
+Obj v__3517751_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518787_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518787_37) {
+Obj v__3518788_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518789_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518788_37);
+if (True == v__3518789_37) {
+Obj v__3518790_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518791_37 = PRIM_ISCONS(v__3518790_37);
+if (True == v__3518791_37) {
+Obj v__3518792_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518793_37 = PRIM_CAR(v__3518792_37);
+Obj v__3517754_37 = v__3518793_37;
+Obj v__3518794_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518795_37 = PRIM_CDR(v__3518794_37);
+Obj v__3518796_37 = PRIM_ISCONS(v__3518795_37);
+if (True == v__3518796_37) {
+Obj v__3518797_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518798_37 = PRIM_CDR(v__3518797_37);
+Obj v__3518799_37 = PRIM_CAR(v__3518798_37);
+Obj v__3517755_37 = v__3518799_37;
+Obj v__3518800_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518801_37 = PRIM_CDR(v__3518800_37);
+Obj v__3518802_37 = PRIM_CDR(v__3518801_37);
+Obj v__3518803_37 = PRIM_EQ(Nil, v__3518802_37);
+if (True == v__3518803_37) {
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517755_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3517754_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3517751_37);
 return;
 }
 }
@@ -5273,26 +5273,26 @@ return;
 }
 case 1:
 {
-Obj v__3518716_37= co->res;
-Obj v__3517667_37 = R[1];
+Obj v__3518805_37= co->res;
+Obj v__3517756_37 = R[1];
 Obj v_cont1 = R[2];
 Obj v_conts1 = R[3];
-Obj v__3518717_37 = PRIM_ADD(v__3518716_37, MAKE_NUMBER(1));
-Obj v__3518718_37 = makeCons(co->gc, v__3518717_37, v__3517667_37);
-Obj v__3518719_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518718_37);
-Obj v__3518720_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518719_37);
-Obj v__3518721_37 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v__3518806_37 = PRIM_ADD(v__3518805_37, MAKE_NUMBER(1));
+Obj v__3518807_37 = makeCons(co->gc, v__3518806_37, v__3517756_37);
+Obj v__3518808_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518807_37);
+Obj v__3518809_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518808_37);
+Obj v__3518810_37 = makeCons(co->gc, v_cont1, v_conts1);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518720_37, v__3518721_37);
+coraCall2(co, closureRef(R[0], 0), v__3518809_37, v__3518810_37);
 return;
 }
 case 2:
 {
-Obj v__3518715_37= co->res;
+Obj v__3518804_37= co->res;
 Obj v_cont1 = R[1];
 Obj v_conts1 = R[2];
-Obj v__3517667_37 = v__3518715_37;
-R[1] = v__3517667_37;
+Obj v__3517756_37 = v__3518804_37;
+R[1] = v__3517756_37;
 R[2] = v_cont1;
 R[3] = v_conts1;
 saveCont(co, clofun65, 1, R);
@@ -5306,15 +5306,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518694_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518694_37) {
-Obj v__3518695_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517663_37 = v__3518695_37;
-Obj v__3518696_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517664_37 = v__3518696_37;
-Obj v__3518697_37 = makeCons(co->gc, v__3517663_37, v__3517664_37);
+Obj v__3518783_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518783_37) {
+Obj v__3518784_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517752_37 = v__3518784_37;
+Obj v__3518785_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517753_37 = v__3518785_37;
+Obj v__3518786_37 = makeCons(co->gc, v__3517752_37, v__3517753_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3518697_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3518786_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5329,90 +5329,90 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517434_37 = R[1];
-Obj v__3517435_37 = R[2];
-R[1] = v__3517435_37;
-R[2] = v__3517434_37;
+Obj v__3517521_37 = R[1];
+Obj v__3517522_37 = R[2];
+R[1] = v__3517522_37;
+R[2] = v__3517521_37;
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517435_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517522_37);
 return;
 }
 case 1:
 {
-Obj v__3518689_37= co->res;
-Obj v__3517657_37 = R[1];
-Obj v__3518690_37 = makeCons(co->gc, v__3518689_37, Nil);
-Obj v__3518691_37 = makeCons(co->gc, v__3517657_37, v__3518690_37);
-Obj v__3518692_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518691_37);
-coraReturn(co, v__3518692_37);
+Obj v__3518778_37= co->res;
+Obj v__3517746_37 = R[1];
+Obj v__3518779_37 = makeCons(co->gc, v__3518778_37, Nil);
+Obj v__3518780_37 = makeCons(co->gc, v__3517746_37, v__3518779_37);
+Obj v__3518781_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518780_37);
+coraReturn(co, v__3518781_37);
 return;
 }
 case 2:
 {
-Obj v__3518617_37= co->res;
-Obj v__3517435_37 = R[1];
-Obj v__3517434_37 = R[2];
-if (True == v__3518617_37) {
-coraReturn(co, v__3517435_37);
-return;
-} else {
-Obj v__3518618_37 = primIsSymbol(v__3517435_37);
-if (True == v__3518618_37) {
-coraReturn(co, v__3517435_37);
-return;
-} else {
-Obj v__3517646_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3517435_37, v__3517434_37);
-Obj v__3518672_37 = PRIM_ISCONS(v__3517435_37);
-if (True == v__3518672_37) {
-Obj v__3518673_37 = PRIM_CAR(v__3517435_37);
-Obj v__3518674_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518673_37);
-if (True == v__3518674_37) {
-Obj v__3518675_37 = PRIM_CDR(v__3517435_37);
-Obj v__3518676_37 = PRIM_ISCONS(v__3518675_37);
-if (True == v__3518676_37) {
-Obj v__3518677_37 = PRIM_CDR(v__3517435_37);
-Obj v__3518678_37 = PRIM_CAR(v__3518677_37);
-Obj v__3517657_37 = v__3518678_37;
-Obj v__3518679_37 = PRIM_CDR(v__3517435_37);
-Obj v__3518680_37 = PRIM_CDR(v__3518679_37);
-Obj v__3518681_37 = PRIM_ISCONS(v__3518680_37);
-if (True == v__3518681_37) {
-Obj v__3518682_37 = PRIM_CDR(v__3517435_37);
-Obj v__3518683_37 = PRIM_CDR(v__3518682_37);
-Obj v__3518684_37 = PRIM_CAR(v__3518683_37);
-Obj v__3517658_37 = v__3518684_37;
-Obj v__3518685_37 = PRIM_CDR(v__3517435_37);
-Obj v__3518686_37 = PRIM_CDR(v__3518685_37);
-Obj v__3518687_37 = PRIM_CDR(v__3518686_37);
-Obj v__3518688_37 = PRIM_EQ(Nil, v__3518687_37);
-if (True == v__3518688_37) {
-R[1] = v__3517657_37;
+Obj v__3518706_37= co->res;
+Obj v__3517522_37 = R[1];
+Obj v__3517521_37 = R[2];
+if (True == v__3518706_37) {
+coraReturn(co, v__3517522_37);
+return;
+} else {
+Obj v__3518707_37 = primIsSymbol(v__3517522_37);
+if (True == v__3518707_37) {
+coraReturn(co, v__3517522_37);
+return;
+} else {
+Obj v__3517735_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3517522_37, v__3517521_37);
+Obj v__3518761_37 = PRIM_ISCONS(v__3517522_37);
+if (True == v__3518761_37) {
+Obj v__3518762_37 = PRIM_CAR(v__3517522_37);
+Obj v__3518763_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518762_37);
+if (True == v__3518763_37) {
+Obj v__3518764_37 = PRIM_CDR(v__3517522_37);
+Obj v__3518765_37 = PRIM_ISCONS(v__3518764_37);
+if (True == v__3518765_37) {
+Obj v__3518766_37 = PRIM_CDR(v__3517522_37);
+Obj v__3518767_37 = PRIM_CAR(v__3518766_37);
+Obj v__3517746_37 = v__3518767_37;
+Obj v__3518768_37 = PRIM_CDR(v__3517522_37);
+Obj v__3518769_37 = PRIM_CDR(v__3518768_37);
+Obj v__3518770_37 = PRIM_ISCONS(v__3518769_37);
+if (True == v__3518770_37) {
+Obj v__3518771_37 = PRIM_CDR(v__3517522_37);
+Obj v__3518772_37 = PRIM_CDR(v__3518771_37);
+Obj v__3518773_37 = PRIM_CAR(v__3518772_37);
+Obj v__3517747_37 = v__3518773_37;
+Obj v__3518774_37 = PRIM_CDR(v__3517522_37);
+Obj v__3518775_37 = PRIM_CDR(v__3518774_37);
+Obj v__3518776_37 = PRIM_CDR(v__3518775_37);
+Obj v__3518777_37 = PRIM_EQ(Nil, v__3518776_37);
+if (True == v__3518777_37) {
+R[1] = v__3517746_37;
 saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517434_37, v__3517658_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517521_37, v__3517747_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517646_37);
+coraCall0(co, v__3517735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517646_37);
+coraCall0(co, v__3517735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517646_37);
+coraCall0(co, v__3517735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517646_37);
+coraCall0(co, v__3517735_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517646_37);
+coraCall0(co, v__3517735_37);
 return;
 }
 }
@@ -5425,121 +5425,121 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517647_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518647_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518647_37) {
-Obj v__3518648_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518649_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518648_37);
-if (True == v__3518649_37) {
-Obj v__3518650_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518651_37 = PRIM_ISCONS(v__3518650_37);
-if (True == v__3518651_37) {
-Obj v__3518652_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518653_37 = PRIM_CAR(v__3518652_37);
-Obj v__3517653_37 = v__3518653_37;
-Obj v__3518654_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518655_37 = PRIM_CDR(v__3518654_37);
-Obj v__3518656_37 = PRIM_ISCONS(v__3518655_37);
-if (True == v__3518656_37) {
-Obj v__3518657_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518658_37 = PRIM_CDR(v__3518657_37);
-Obj v__3518659_37 = PRIM_CAR(v__3518658_37);
-Obj v__3517654_37 = v__3518659_37;
-Obj v__3518660_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518661_37 = PRIM_CDR(v__3518660_37);
-Obj v__3518662_37 = PRIM_CDR(v__3518661_37);
-Obj v__3518663_37 = PRIM_EQ(Nil, v__3518662_37);
-if (True == v__3518663_37) {
-R[1] = v__3517654_37;
-R[2] = v__3517653_37;
+Obj v__3517736_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518736_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518736_37) {
+Obj v__3518737_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518738_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518737_37);
+if (True == v__3518738_37) {
+Obj v__3518739_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518740_37 = PRIM_ISCONS(v__3518739_37);
+if (True == v__3518740_37) {
+Obj v__3518741_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518742_37 = PRIM_CAR(v__3518741_37);
+Obj v__3517742_37 = v__3518742_37;
+Obj v__3518743_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518744_37 = PRIM_CDR(v__3518743_37);
+Obj v__3518745_37 = PRIM_ISCONS(v__3518744_37);
+if (True == v__3518745_37) {
+Obj v__3518746_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518747_37 = PRIM_CDR(v__3518746_37);
+Obj v__3518748_37 = PRIM_CAR(v__3518747_37);
+Obj v__3517743_37 = v__3518748_37;
+Obj v__3518749_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518750_37 = PRIM_CDR(v__3518749_37);
+Obj v__3518751_37 = PRIM_CDR(v__3518750_37);
+Obj v__3518752_37 = PRIM_EQ(Nil, v__3518751_37);
+if (True == v__3518752_37) {
+R[1] = v__3517743_37;
+R[2] = v__3517742_37;
 saveCont(co, clofun62, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517654_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517743_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3517736_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517647_37);
+coraCall0(co, v__3517736_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518668_37= co->res;
-Obj v__3517656_37 = R[1];
-Obj v__3517653_37 = R[2];
-Obj v__3518669_37 = makeCons(co->gc, v__3518668_37, v__3517656_37);
-Obj v__3518670_37 = makeCons(co->gc, v__3517653_37, v__3518669_37);
-Obj v__3518671_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3518670_37);
-coraReturn(co, v__3518671_37);
+Obj v__3518757_37= co->res;
+Obj v__3517745_37 = R[1];
+Obj v__3517742_37 = R[2];
+Obj v__3518758_37 = makeCons(co->gc, v__3518757_37, v__3517745_37);
+Obj v__3518759_37 = makeCons(co->gc, v__3517742_37, v__3518758_37);
+Obj v__3518760_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3518759_37);
+coraReturn(co, v__3518760_37);
 return;
 }
 case 2:
 {
-Obj v__3518667_37= co->res;
-Obj v__3517655_37 = R[1];
-Obj v__3517654_37 = R[2];
-Obj v__3517653_37 = R[3];
-Obj v__3517656_37 = v__3518667_37;
-R[1] = v__3517656_37;
-R[2] = v__3517653_37;
+Obj v__3518756_37= co->res;
+Obj v__3517744_37 = R[1];
+Obj v__3517743_37 = R[2];
+Obj v__3517742_37 = R[3];
+Obj v__3517745_37 = v__3518756_37;
+R[1] = v__3517745_37;
+R[2] = v__3517742_37;
 saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517655_37, v__3517654_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517744_37, v__3517743_37);
 return;
 }
 case 3:
 {
-Obj v__3518666_37= co->res;
-Obj v__3517655_37 = R[1];
-Obj v__3517654_37 = R[2];
-Obj v__3517653_37 = R[3];
-R[1] = v__3517655_37;
-R[2] = v__3517654_37;
-R[3] = v__3517653_37;
+Obj v__3518755_37= co->res;
+Obj v__3517744_37 = R[1];
+Obj v__3517743_37 = R[2];
+Obj v__3517742_37 = R[3];
+R[1] = v__3517744_37;
+R[2] = v__3517743_37;
+R[3] = v__3517742_37;
 saveCont(co, clofun62, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518666_37, v__3517655_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518755_37, v__3517744_37);
 return;
 }
 case 4:
 {
-Obj v__3518665_37= co->res;
-Obj v__3517654_37 = R[1];
-Obj v__3517653_37 = R[2];
-Obj v__3517655_37 = v__3518665_37;
-R[1] = v__3517655_37;
-R[2] = v__3517654_37;
-R[3] = v__3517653_37;
+Obj v__3518754_37= co->res;
+Obj v__3517743_37 = R[1];
+Obj v__3517742_37 = R[2];
+Obj v__3517744_37 = v__3518754_37;
+R[1] = v__3517744_37;
+R[2] = v__3517743_37;
+R[3] = v__3517742_37;
 saveCont(co, clofun62, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3518664_37= co->res;
-Obj v__3517654_37 = R[1];
-Obj v__3517653_37 = R[2];
-R[1] = v__3517654_37;
-R[2] = v__3517653_37;
+Obj v__3518753_37= co->res;
+Obj v__3517743_37 = R[1];
+Obj v__3517742_37 = R[2];
+R[1] = v__3517743_37;
+R[2] = v__3517742_37;
 saveCont(co, clofun62, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518664_37, v__3517653_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518753_37, v__3517742_37);
 return;
 }
 }
@@ -5549,89 +5549,89 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517648_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518624_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518624_37) {
-Obj v__3518625_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518626_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518625_37);
-if (True == v__3518626_37) {
-Obj v__3518627_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518628_37 = PRIM_ISCONS(v__3518627_37);
-if (True == v__3518628_37) {
-Obj v__3518629_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518630_37 = PRIM_CAR(v__3518629_37);
-Obj v__3517651_37 = v__3518630_37;
-Obj v__3518631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518632_37 = PRIM_CDR(v__3518631_37);
-Obj v__3518633_37 = PRIM_ISCONS(v__3518632_37);
-if (True == v__3518633_37) {
-Obj v__3518634_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518635_37 = PRIM_CDR(v__3518634_37);
-Obj v__3518636_37 = PRIM_CAR(v__3518635_37);
-Obj v__3517652_37 = v__3518636_37;
-Obj v__3518637_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518638_37 = PRIM_CDR(v__3518637_37);
-Obj v__3518639_37 = PRIM_CDR(v__3518638_37);
-Obj v__3518640_37 = PRIM_EQ(Nil, v__3518639_37);
-if (True == v__3518640_37) {
-R[1] = v__3517651_37;
-R[2] = v__3517652_37;
+Obj v__3517737_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518713_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518713_37) {
+Obj v__3518714_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518715_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518714_37);
+if (True == v__3518715_37) {
+Obj v__3518716_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518717_37 = PRIM_ISCONS(v__3518716_37);
+if (True == v__3518717_37) {
+Obj v__3518718_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518719_37 = PRIM_CAR(v__3518718_37);
+Obj v__3517740_37 = v__3518719_37;
+Obj v__3518720_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518721_37 = PRIM_CDR(v__3518720_37);
+Obj v__3518722_37 = PRIM_ISCONS(v__3518721_37);
+if (True == v__3518722_37) {
+Obj v__3518723_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518724_37 = PRIM_CDR(v__3518723_37);
+Obj v__3518725_37 = PRIM_CAR(v__3518724_37);
+Obj v__3517741_37 = v__3518725_37;
+Obj v__3518726_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518727_37 = PRIM_CDR(v__3518726_37);
+Obj v__3518728_37 = PRIM_CDR(v__3518727_37);
+Obj v__3518729_37 = PRIM_EQ(Nil, v__3518728_37);
+if (True == v__3518729_37) {
+R[1] = v__3517740_37;
+R[2] = v__3517741_37;
 saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3517737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3517737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3517737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3517737_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517648_37);
+coraCall0(co, v__3517737_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518643_37= co->res;
-Obj v__3518642_37 = R[1];
-Obj v__3518644_37 = makeCons(co->gc, v__3518643_37, Nil);
-Obj v__3518645_37 = makeCons(co->gc, v__3518642_37, v__3518644_37);
-Obj v__3518646_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518645_37);
-coraReturn(co, v__3518646_37);
+Obj v__3518732_37= co->res;
+Obj v__3518731_37 = R[1];
+Obj v__3518733_37 = makeCons(co->gc, v__3518732_37, Nil);
+Obj v__3518734_37 = makeCons(co->gc, v__3518731_37, v__3518733_37);
+Obj v__3518735_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518734_37);
+coraReturn(co, v__3518735_37);
 return;
 }
 case 2:
 {
-Obj v__3518642_37= co->res;
-Obj v__3517652_37 = R[1];
-R[1] = v__3518642_37;
+Obj v__3518731_37= co->res;
+Obj v__3517741_37 = R[1];
+R[1] = v__3518731_37;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3517652_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3517741_37);
 return;
 }
 case 3:
 {
-Obj v__3518641_37= co->res;
-Obj v__3517651_37 = R[1];
-Obj v__3517652_37 = R[2];
-R[1] = v__3517652_37;
+Obj v__3518730_37= co->res;
+Obj v__3517740_37 = R[1];
+Obj v__3517741_37 = R[2];
+R[1] = v__3517741_37;
 saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518641_37, v__3517651_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518730_37, v__3517740_37);
 return;
 }
 }
@@ -5641,14 +5641,14 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518619_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518619_37) {
-Obj v__3518620_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517649_37 = v__3518620_37;
-Obj v__3518621_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517650_37 = v__3518621_37;
-R[1] = v__3517649_37;
-R[2] = v__3517650_37;
+Obj v__3518708_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518708_37) {
+Obj v__3518709_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517738_37 = v__3518709_37;
+Obj v__3518710_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517739_37 = v__3518710_37;
+R[1] = v__3517738_37;
+R[2] = v__3517739_37;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
@@ -5660,12 +5660,12 @@ return;
 }
 case 1:
 {
-Obj v__3518622_37= co->res;
-Obj v__3517649_37 = R[1];
-Obj v__3517650_37 = R[2];
-Obj v__3518623_37 = makeCons(co->gc, v__3517649_37, v__3517650_37);
+Obj v__3518711_37= co->res;
+Obj v__3517738_37 = R[1];
+Obj v__3517739_37 = R[2];
+Obj v__3518712_37 = makeCons(co->gc, v__3517738_37, v__3517739_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518622_37, v__3518623_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518711_37, v__3518712_37);
 return;
 }
 }
@@ -5675,24 +5675,24 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517429_37 = R[1];
-Obj v__3517430_37 = R[2];
-Obj v__3517431_37 = R[3];
-Obj v__3518594_37 = PRIM_EQ(Nil, v__3517429_37);
-if (True == v__3518594_37) {
-R[1] = v__3517431_37;
+Obj v__3517516_37 = R[1];
+Obj v__3517517_37 = R[2];
+Obj v__3517518_37 = R[3];
+Obj v__3518683_37 = PRIM_EQ(Nil, v__3517516_37);
+if (True == v__3518683_37) {
+R[1] = v__3517518_37;
 saveCont(co, clofun59, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517430_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517517_37);
 return;
 } else {
-Obj v__3518612_37 = PRIM_ISCONS(v__3517429_37);
-if (True == v__3518612_37) {
-Obj v__3518613_37 = PRIM_CAR(v__3517429_37);
-Obj v__3517644_37 = v__3518613_37;
-Obj v__3518614_37 = PRIM_CDR(v__3517429_37);
-Obj v__3517645_37 = v__3518614_37;
+Obj v__3518701_37 = PRIM_ISCONS(v__3517516_37);
+if (True == v__3518701_37) {
+Obj v__3518702_37 = PRIM_CAR(v__3517516_37);
+Obj v__3517733_37 = v__3518702_37;
+Obj v__3518703_37 = PRIM_CDR(v__3517516_37);
+Obj v__3517734_37 = v__3518703_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517644_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3517645_37, v__3517430_37, v__3517431_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517733_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3517734_37, v__3517517_37, v__3517518_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5703,46 +5703,46 @@ return;
 }
 case 1:
 {
-Obj v__3518610_37= co->res;
-Obj v__3517642_37 = R[1];
-Obj v__3518611_37 = PRIM_EQ(v__3518610_37, getBinding(co, packageID, 91).name);
-if (True == v__3518611_37) {
+Obj v__3518699_37= co->res;
+Obj v__3517731_37 = R[1];
+Obj v__3518700_37 = PRIM_EQ(v__3518699_37, getBinding(co, packageID, 91).name);
+if (True == v__3518700_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517642_37, True);
+coraCall1(co, v__3517731_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517642_37, False);
+coraCall1(co, v__3517731_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518609_37= co->res;
-Obj v__3517639_37 = R[1];
-Obj v__3517642_37 = R[2];
-if (True == v__3518609_37) {
-R[1] = v__3517642_37;
+Obj v__3518698_37= co->res;
+Obj v__3517728_37 = R[1];
+Obj v__3517731_37 = R[2];
+if (True == v__3518698_37) {
+R[1] = v__3517731_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3517639_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3517728_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517642_37, False);
+coraCall1(co, v__3517731_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3518595_37= co->res;
-Obj v__3517431_37 = R[1];
-Obj v__3517639_37 = v__3518595_37;
-Obj v__3517642_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3517639_37, v__3517431_37);
-Obj v__3518608_37 = PRIM_CAR(v__3517639_37);
-R[1] = v__3517639_37;
-R[2] = v__3517642_37;
+Obj v__3518684_37= co->res;
+Obj v__3517518_37 = R[1];
+Obj v__3517728_37 = v__3518684_37;
+Obj v__3517731_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3517728_37, v__3517518_37);
+Obj v__3518697_37 = PRIM_CAR(v__3517728_37);
+R[1] = v__3517728_37;
+R[2] = v__3517731_37;
 saveCont(co, clofun59, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3518608_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3518697_37);
 return;
 }
 }
@@ -5753,9 +5753,9 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_hd1 = R[1];
-Obj v__3518615_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v__3518704_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3518615_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3518704_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5765,40 +5765,40 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517641_37 = R[1];
-if (True == v__3517641_37) {
+Obj v__3517730_37 = R[1];
+if (True == v__3517730_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3518596_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == v__3518596_37) {
-Obj v__3518597_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3518598_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518597_37);
-coraReturn(co, v__3518598_37);
+Obj v__3518685_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == v__3518685_37) {
+Obj v__3518686_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3518687_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518686_37);
+coraReturn(co, v__3518687_37);
 return;
 } else {
-Obj v__3518599_37 = primGenSym(co);
-Obj v__3517643_37 = v__3518599_37;
-Obj v__3518600_37 = makeCons(co->gc, v__3517643_37, Nil);
-R[1] = v__3518600_37;
+Obj v__3518688_37 = primGenSym(co);
+Obj v__3517732_37 = v__3518688_37;
+Obj v__3518689_37 = makeCons(co->gc, v__3517732_37, Nil);
+R[1] = v__3518689_37;
 saveCont(co, clofun57, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3517643_37);
+coraCall1(co, closureRef(R[0], 1), v__3517732_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518601_37= co->res;
-Obj v__3518600_37 = R[1];
-Obj v__3518602_37 = makeCons(co->gc, v__3518601_37, Nil);
-Obj v__3518603_37 = makeCons(co->gc, v__3518600_37, v__3518602_37);
-Obj v__3518604_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518603_37);
-Obj v__3518605_37 = makeCons(co->gc, v__3518604_37, Nil);
-Obj v__3518606_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518605_37);
-Obj v__3518607_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518606_37);
-coraReturn(co, v__3518607_37);
+Obj v__3518690_37= co->res;
+Obj v__3518689_37 = R[1];
+Obj v__3518691_37 = makeCons(co->gc, v__3518690_37, Nil);
+Obj v__3518692_37 = makeCons(co->gc, v__3518689_37, v__3518691_37);
+Obj v__3518693_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518692_37);
+Obj v__3518694_37 = makeCons(co->gc, v__3518693_37, Nil);
+Obj v__3518695_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518694_37);
+Obj v__3518696_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518695_37);
+coraReturn(co, v__3518696_37);
 return;
 }
 }
@@ -5808,32 +5808,32 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517420_37 = R[1];
-Obj v__3517421_37 = R[2];
-Obj v__3517621_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3517420_37, v__3517421_37);
-Obj v__3518591_37 = primIsSymbol(v__3517420_37);
-if (True == v__3518591_37) {
+Obj v__3517507_37 = R[1];
+Obj v__3517508_37 = R[2];
+Obj v__3517710_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3517507_37, v__3517508_37);
+Obj v__3518680_37 = primIsSymbol(v__3517507_37);
+if (True == v__3518680_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517621_37, True);
+coraCall1(co, v__3517710_37, True);
 return;
 } else {
-R[1] = v__3517621_37;
+R[1] = v__3517710_37;
 saveCont(co, clofun56, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517420_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517507_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518592_37= co->res;
-Obj v__3517621_37 = R[1];
-if (True == v__3518592_37) {
+Obj v__3518681_37= co->res;
+Obj v__3517710_37 = R[1];
+if (True == v__3518681_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517621_37, True);
+coraCall1(co, v__3517710_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517621_37, False);
+coraCall1(co, v__3517710_37, False);
 return;
 }
 }
@@ -5844,8 +5844,8 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517620_37 = R[1];
-if (True == v__3517620_37) {
+Obj v__3517709_37 = R[1];
+if (True == v__3517709_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5857,78 +5857,78 @@ return;
 }
 case 1:
 {
-Obj v__3518457_37= co->res;
-if (True == v__3518457_37) {
+Obj v__3518546_37= co->res;
+if (True == v__3518546_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3517622_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518559_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518559_37) {
-Obj v__3518560_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518561_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518560_37);
-if (True == v__3518561_37) {
-Obj v__3518562_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518563_37 = PRIM_ISCONS(v__3518562_37);
-if (True == v__3518563_37) {
-Obj v__3518564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518565_37 = PRIM_CAR(v__3518564_37);
-Obj v__3517636_37 = v__3518565_37;
-Obj v__3518566_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518567_37 = PRIM_CDR(v__3518566_37);
-Obj v__3518568_37 = PRIM_ISCONS(v__3518567_37);
-if (True == v__3518568_37) {
-Obj v__3518569_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518570_37 = PRIM_CDR(v__3518569_37);
-Obj v__3518571_37 = PRIM_CAR(v__3518570_37);
-Obj v__3517637_37 = v__3518571_37;
-Obj v__3518572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518573_37 = PRIM_CDR(v__3518572_37);
-Obj v__3518574_37 = PRIM_CDR(v__3518573_37);
-Obj v__3518575_37 = PRIM_ISCONS(v__3518574_37);
-if (True == v__3518575_37) {
-Obj v__3518576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518577_37 = PRIM_CDR(v__3518576_37);
-Obj v__3518578_37 = PRIM_CDR(v__3518577_37);
-Obj v__3518579_37 = PRIM_CAR(v__3518578_37);
-Obj v__3517638_37 = v__3518579_37;
-Obj v__3518580_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518581_37 = PRIM_CDR(v__3518580_37);
-Obj v__3518582_37 = PRIM_CDR(v__3518581_37);
-Obj v__3518583_37 = PRIM_CDR(v__3518582_37);
-Obj v__3518584_37 = PRIM_EQ(Nil, v__3518583_37);
-if (True == v__3518584_37) {
+Obj v__3517711_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518648_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518648_37) {
+Obj v__3518649_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518650_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518649_37);
+if (True == v__3518650_37) {
+Obj v__3518651_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518652_37 = PRIM_ISCONS(v__3518651_37);
+if (True == v__3518652_37) {
+Obj v__3518653_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518654_37 = PRIM_CAR(v__3518653_37);
+Obj v__3517725_37 = v__3518654_37;
+Obj v__3518655_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518656_37 = PRIM_CDR(v__3518655_37);
+Obj v__3518657_37 = PRIM_ISCONS(v__3518656_37);
+if (True == v__3518657_37) {
+Obj v__3518658_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518659_37 = PRIM_CDR(v__3518658_37);
+Obj v__3518660_37 = PRIM_CAR(v__3518659_37);
+Obj v__3517726_37 = v__3518660_37;
+Obj v__3518661_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518662_37 = PRIM_CDR(v__3518661_37);
+Obj v__3518663_37 = PRIM_CDR(v__3518662_37);
+Obj v__3518664_37 = PRIM_ISCONS(v__3518663_37);
+if (True == v__3518664_37) {
+Obj v__3518665_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518666_37 = PRIM_CDR(v__3518665_37);
+Obj v__3518667_37 = PRIM_CDR(v__3518666_37);
+Obj v__3518668_37 = PRIM_CAR(v__3518667_37);
+Obj v__3517727_37 = v__3518668_37;
+Obj v__3518669_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518670_37 = PRIM_CDR(v__3518669_37);
+Obj v__3518671_37 = PRIM_CDR(v__3518670_37);
+Obj v__3518672_37 = PRIM_CDR(v__3518671_37);
+Obj v__3518673_37 = PRIM_EQ(Nil, v__3518672_37);
+if (True == v__3518673_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517636_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3517637_37, v__3517638_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517725_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3517726_37, v__3517727_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3517711_37);
 return;
 }
 }
@@ -5948,21 +5948,21 @@ return;
 }
 case 1:
 {
-Obj v__3518586_37= co->res;
-Obj v__3518585_37 = R[1];
+Obj v__3518675_37= co->res;
+Obj v__3518674_37 = R[1];
 Obj v_ra = R[2];
-Obj v__3518587_37 = makeCons(co->gc, v__3518586_37, Nil);
-Obj v__3518588_37 = makeCons(co->gc, v__3518585_37, v__3518587_37);
-Obj v__3518589_37 = makeCons(co->gc, v_ra, v__3518588_37);
-Obj v__3518590_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518589_37);
-coraReturn(co, v__3518590_37);
+Obj v__3518676_37 = makeCons(co->gc, v__3518675_37, Nil);
+Obj v__3518677_37 = makeCons(co->gc, v__3518674_37, v__3518676_37);
+Obj v__3518678_37 = makeCons(co->gc, v_ra, v__3518677_37);
+Obj v__3518679_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518678_37);
+coraReturn(co, v__3518679_37);
 return;
 }
 case 2:
 {
-Obj v__3518585_37= co->res;
+Obj v__3518674_37= co->res;
 Obj v_ra = R[1];
-R[1] = v__3518585_37;
+R[1] = v__3518674_37;
 R[2] = v_ra;
 saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
@@ -5975,57 +5975,57 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517623_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518537_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518537_37) {
-Obj v__3518538_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518539_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518538_37);
-if (True == v__3518539_37) {
-Obj v__3518540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518541_37 = PRIM_ISCONS(v__3518540_37);
-if (True == v__3518541_37) {
-Obj v__3518542_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518543_37 = PRIM_CAR(v__3518542_37);
-Obj v__3517634_37 = v__3518543_37;
-Obj v__3518544_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518545_37 = PRIM_CDR(v__3518544_37);
-Obj v__3518546_37 = PRIM_ISCONS(v__3518545_37);
-if (True == v__3518546_37) {
-Obj v__3518547_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518548_37 = PRIM_CDR(v__3518547_37);
-Obj v__3518549_37 = PRIM_CAR(v__3518548_37);
-Obj v__3517635_37 = v__3518549_37;
-Obj v__3518550_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518551_37 = PRIM_CDR(v__3518550_37);
-Obj v__3518552_37 = PRIM_CDR(v__3518551_37);
-Obj v__3518553_37 = PRIM_EQ(Nil, v__3518552_37);
-if (True == v__3518553_37) {
+Obj v__3517712_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518626_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518626_37) {
+Obj v__3518627_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518628_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518627_37);
+if (True == v__3518628_37) {
+Obj v__3518629_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518630_37 = PRIM_ISCONS(v__3518629_37);
+if (True == v__3518630_37) {
+Obj v__3518631_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518632_37 = PRIM_CAR(v__3518631_37);
+Obj v__3517723_37 = v__3518632_37;
+Obj v__3518633_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518634_37 = PRIM_CDR(v__3518633_37);
+Obj v__3518635_37 = PRIM_ISCONS(v__3518634_37);
+if (True == v__3518635_37) {
+Obj v__3518636_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518637_37 = PRIM_CDR(v__3518636_37);
+Obj v__3518638_37 = PRIM_CAR(v__3518637_37);
+Obj v__3517724_37 = v__3518638_37;
+Obj v__3518639_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518640_37 = PRIM_CDR(v__3518639_37);
+Obj v__3518641_37 = PRIM_CDR(v__3518640_37);
+Obj v__3518642_37 = PRIM_EQ(Nil, v__3518641_37);
+if (True == v__3518642_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517634_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3517635_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517723_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3517724_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517712_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3517712_37);
 return;
 }
 }
@@ -6037,8 +6037,8 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_ra = R[1];
-Obj v__3518554_37 = primIsSymbol(v_ra);
-if (True == v__3518554_37) {
+Obj v__3518643_37 = primIsSymbol(v_ra);
+if (True == v__3518643_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6051,12 +6051,12 @@ return;
 }
 case 1:
 {
-Obj v__3518555_37= co->res;
+Obj v__3518644_37= co->res;
 Obj v_ra = R[1];
-Obj v__3518556_37 = makeCons(co->gc, v__3518555_37, Nil);
-Obj v__3518557_37 = makeCons(co->gc, v_ra, v__3518556_37);
-Obj v__3518558_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518557_37);
-coraReturn(co, v__3518558_37);
+Obj v__3518645_37 = makeCons(co->gc, v__3518644_37, Nil);
+Obj v__3518646_37 = makeCons(co->gc, v_ra, v__3518645_37);
+Obj v__3518647_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518646_37);
+coraReturn(co, v__3518647_37);
 return;
 }
 }
@@ -6066,73 +6066,73 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517624_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518506_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518506_37) {
-Obj v__3518507_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518508_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518507_37);
-if (True == v__3518508_37) {
-Obj v__3518509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518510_37 = PRIM_ISCONS(v__3518509_37);
-if (True == v__3518510_37) {
-Obj v__3518511_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518512_37 = PRIM_CAR(v__3518511_37);
-Obj v__3517631_37 = v__3518512_37;
-Obj v__3518513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518514_37 = PRIM_CDR(v__3518513_37);
-Obj v__3518515_37 = PRIM_ISCONS(v__3518514_37);
-if (True == v__3518515_37) {
-Obj v__3518516_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518517_37 = PRIM_CDR(v__3518516_37);
-Obj v__3518518_37 = PRIM_CAR(v__3518517_37);
-Obj v__3517632_37 = v__3518518_37;
-Obj v__3518519_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518520_37 = PRIM_CDR(v__3518519_37);
-Obj v__3518521_37 = PRIM_CDR(v__3518520_37);
-Obj v__3518522_37 = PRIM_ISCONS(v__3518521_37);
-if (True == v__3518522_37) {
-Obj v__3518523_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518524_37 = PRIM_CDR(v__3518523_37);
-Obj v__3518525_37 = PRIM_CDR(v__3518524_37);
-Obj v__3518526_37 = PRIM_CAR(v__3518525_37);
-Obj v__3517633_37 = v__3518526_37;
-Obj v__3518527_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518528_37 = PRIM_CDR(v__3518527_37);
-Obj v__3518529_37 = PRIM_CDR(v__3518528_37);
-Obj v__3518530_37 = PRIM_CDR(v__3518529_37);
-Obj v__3518531_37 = PRIM_EQ(Nil, v__3518530_37);
-if (True == v__3518531_37) {
+Obj v__3517713_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518595_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518595_37) {
+Obj v__3518596_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518597_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518596_37);
+if (True == v__3518597_37) {
+Obj v__3518598_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518599_37 = PRIM_ISCONS(v__3518598_37);
+if (True == v__3518599_37) {
+Obj v__3518600_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518601_37 = PRIM_CAR(v__3518600_37);
+Obj v__3517720_37 = v__3518601_37;
+Obj v__3518602_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518603_37 = PRIM_CDR(v__3518602_37);
+Obj v__3518604_37 = PRIM_ISCONS(v__3518603_37);
+if (True == v__3518604_37) {
+Obj v__3518605_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518606_37 = PRIM_CDR(v__3518605_37);
+Obj v__3518607_37 = PRIM_CAR(v__3518606_37);
+Obj v__3517721_37 = v__3518607_37;
+Obj v__3518608_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518609_37 = PRIM_CDR(v__3518608_37);
+Obj v__3518610_37 = PRIM_CDR(v__3518609_37);
+Obj v__3518611_37 = PRIM_ISCONS(v__3518610_37);
+if (True == v__3518611_37) {
+Obj v__3518612_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518613_37 = PRIM_CDR(v__3518612_37);
+Obj v__3518614_37 = PRIM_CDR(v__3518613_37);
+Obj v__3518615_37 = PRIM_CAR(v__3518614_37);
+Obj v__3517722_37 = v__3518615_37;
+Obj v__3518616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518617_37 = PRIM_CDR(v__3518616_37);
+Obj v__3518618_37 = PRIM_CDR(v__3518617_37);
+Obj v__3518619_37 = PRIM_CDR(v__3518618_37);
+Obj v__3518620_37 = PRIM_EQ(Nil, v__3518619_37);
+if (True == v__3518620_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517632_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3517631_37, v__3517633_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517721_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3517720_37, v__3517722_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3517713_37);
 return;
 }
 }
@@ -6151,13 +6151,13 @@ return;
 }
 case 1:
 {
-Obj v__3518532_37= co->res;
+Obj v__3518621_37= co->res;
 Obj v_rb = R[1];
-Obj v__3518533_37 = makeCons(co->gc, v__3518532_37, Nil);
-Obj v__3518534_37 = makeCons(co->gc, v_rb, v__3518533_37);
-Obj v__3518535_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518534_37);
-Obj v__3518536_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518535_37);
-coraReturn(co, v__3518536_37);
+Obj v__3518622_37 = makeCons(co->gc, v__3518621_37, Nil);
+Obj v__3518623_37 = makeCons(co->gc, v_rb, v__3518622_37);
+Obj v__3518624_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518623_37);
+Obj v__3518625_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518624_37);
+coraReturn(co, v__3518625_37);
 return;
 }
 }
@@ -6167,114 +6167,114 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517625_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518462_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518462_37) {
-Obj v__3518463_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518464_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518463_37);
-if (True == v__3518464_37) {
-Obj v__3518465_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518466_37 = PRIM_ISCONS(v__3518465_37);
-if (True == v__3518466_37) {
-Obj v__3518467_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518468_37 = PRIM_CAR(v__3518467_37);
-Obj v__3518469_37 = PRIM_ISCONS(v__3518468_37);
-if (True == v__3518469_37) {
-Obj v__3518470_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518471_37 = PRIM_CAR(v__3518470_37);
-Obj v__3518472_37 = PRIM_CAR(v__3518471_37);
-Obj v__3518473_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518472_37);
-if (True == v__3518473_37) {
-Obj v__3518474_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518475_37 = PRIM_CAR(v__3518474_37);
-Obj v__3518476_37 = PRIM_CDR(v__3518475_37);
-Obj v__3518477_37 = PRIM_ISCONS(v__3518476_37);
-if (True == v__3518477_37) {
-Obj v__3518478_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518479_37 = PRIM_CAR(v__3518478_37);
-Obj v__3518480_37 = PRIM_CDR(v__3518479_37);
-Obj v__3518481_37 = PRIM_CAR(v__3518480_37);
-Obj v__3517628_37 = v__3518481_37;
-Obj v__3518482_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518483_37 = PRIM_CAR(v__3518482_37);
-Obj v__3518484_37 = PRIM_CDR(v__3518483_37);
-Obj v__3518485_37 = PRIM_CDR(v__3518484_37);
-Obj v__3518486_37 = PRIM_ISCONS(v__3518485_37);
-if (True == v__3518486_37) {
-Obj v__3518487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518488_37 = PRIM_CAR(v__3518487_37);
-Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
-Obj v__3518490_37 = PRIM_CDR(v__3518489_37);
-Obj v__3518491_37 = PRIM_CAR(v__3518490_37);
-Obj v__3517629_37 = v__3518491_37;
-Obj v__3518492_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518493_37 = PRIM_CAR(v__3518492_37);
-Obj v__3518494_37 = PRIM_CDR(v__3518493_37);
-Obj v__3518495_37 = PRIM_CDR(v__3518494_37);
-Obj v__3518496_37 = PRIM_CDR(v__3518495_37);
-Obj v__3518497_37 = PRIM_EQ(Nil, v__3518496_37);
-if (True == v__3518497_37) {
-Obj v__3518498_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518499_37 = PRIM_CDR(v__3518498_37);
-Obj v__3517630_37 = v__3518499_37;
-R[1] = v__3517628_37;
-R[2] = v__3517630_37;
+Obj v__3517714_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518551_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518551_37) {
+Obj v__3518552_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518553_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518552_37);
+if (True == v__3518553_37) {
+Obj v__3518554_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518555_37 = PRIM_ISCONS(v__3518554_37);
+if (True == v__3518555_37) {
+Obj v__3518556_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518557_37 = PRIM_CAR(v__3518556_37);
+Obj v__3518558_37 = PRIM_ISCONS(v__3518557_37);
+if (True == v__3518558_37) {
+Obj v__3518559_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518560_37 = PRIM_CAR(v__3518559_37);
+Obj v__3518561_37 = PRIM_CAR(v__3518560_37);
+Obj v__3518562_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518561_37);
+if (True == v__3518562_37) {
+Obj v__3518563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518564_37 = PRIM_CAR(v__3518563_37);
+Obj v__3518565_37 = PRIM_CDR(v__3518564_37);
+Obj v__3518566_37 = PRIM_ISCONS(v__3518565_37);
+if (True == v__3518566_37) {
+Obj v__3518567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518568_37 = PRIM_CAR(v__3518567_37);
+Obj v__3518569_37 = PRIM_CDR(v__3518568_37);
+Obj v__3518570_37 = PRIM_CAR(v__3518569_37);
+Obj v__3517717_37 = v__3518570_37;
+Obj v__3518571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518572_37 = PRIM_CAR(v__3518571_37);
+Obj v__3518573_37 = PRIM_CDR(v__3518572_37);
+Obj v__3518574_37 = PRIM_CDR(v__3518573_37);
+Obj v__3518575_37 = PRIM_ISCONS(v__3518574_37);
+if (True == v__3518575_37) {
+Obj v__3518576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518577_37 = PRIM_CAR(v__3518576_37);
+Obj v__3518578_37 = PRIM_CDR(v__3518577_37);
+Obj v__3518579_37 = PRIM_CDR(v__3518578_37);
+Obj v__3518580_37 = PRIM_CAR(v__3518579_37);
+Obj v__3517718_37 = v__3518580_37;
+Obj v__3518581_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518582_37 = PRIM_CAR(v__3518581_37);
+Obj v__3518583_37 = PRIM_CDR(v__3518582_37);
+Obj v__3518584_37 = PRIM_CDR(v__3518583_37);
+Obj v__3518585_37 = PRIM_CDR(v__3518584_37);
+Obj v__3518586_37 = PRIM_EQ(Nil, v__3518585_37);
+if (True == v__3518586_37) {
+Obj v__3518587_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518588_37 = PRIM_CDR(v__3518587_37);
+Obj v__3517719_37 = v__3518588_37;
+R[1] = v__3517717_37;
+R[2] = v__3517719_37;
 saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517629_37, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517718_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3517714_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518500_37= co->res;
-Obj v__3517628_37 = R[1];
-Obj v__3517630_37 = R[2];
-Obj v__3518501_37 = makeCons(co->gc, v__3518500_37, Nil);
-Obj v__3518502_37 = makeCons(co->gc, v__3517628_37, v__3518501_37);
-Obj v__3518503_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518502_37);
-Obj v__3518504_37 = makeCons(co->gc, v__3518503_37, v__3517630_37);
-Obj v__3518505_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518504_37);
+Obj v__3518589_37= co->res;
+Obj v__3517717_37 = R[1];
+Obj v__3517719_37 = R[2];
+Obj v__3518590_37 = makeCons(co->gc, v__3518589_37, Nil);
+Obj v__3518591_37 = makeCons(co->gc, v__3517717_37, v__3518590_37);
+Obj v__3518592_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518591_37);
+Obj v__3518593_37 = makeCons(co->gc, v__3518592_37, v__3517719_37);
+Obj v__3518594_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518593_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3518505_37);
+coraCall1(co, closureRef(R[0], 1), v__3518594_37);
 return;
 }
 }
@@ -6284,15 +6284,15 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518458_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518458_37) {
-Obj v__3518459_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517626_37 = v__3518459_37;
-Obj v__3518460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517627_37 = v__3518460_37;
-Obj v__3518461_37 = makeCons(co->gc, v__3517626_37, v__3517627_37);
+Obj v__3518547_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518547_37) {
+Obj v__3518548_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517715_37 = v__3518548_37;
+Obj v__3518549_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517716_37 = v__3518549_37;
+Obj v__3518550_37 = makeCons(co->gc, v__3517715_37, v__3517716_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3518461_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3518550_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6308,9 +6308,9 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518454_37 = makeCons(co->gc, v_x, Nil);
-Obj v__3518455_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3518454_37);
-coraReturn(co, v__3518455_37);
+Obj v__3518543_37 = makeCons(co->gc, v_x, Nil);
+Obj v__3518544_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3518543_37);
+coraReturn(co, v__3518544_37);
 return;
 }
 }
@@ -6320,151 +6320,151 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517413_37 = R[1];
-Obj v__3517414_37 = R[2];
-R[1] = v__3517414_37;
-R[2] = v__3517413_37;
+Obj v__3517500_37 = R[1];
+Obj v__3517501_37 = R[2];
+R[1] = v__3517501_37;
+R[2] = v__3517500_37;
 saveCont(co, clofun46, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517414_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517501_37);
 return;
 }
 case 1:
 {
-Obj v__3518383_37= co->res;
-Obj v__3517414_37 = R[1];
-Obj v__3517608_37 = v__3518383_37;
-Obj v__3518384_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517608_37);
-if (True == v__3518384_37) {
-coraReturn(co, v__3517414_37);
+Obj v__3518472_37= co->res;
+Obj v__3517501_37 = R[1];
+Obj v__3517697_37 = v__3518472_37;
+Obj v__3518473_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517697_37);
+if (True == v__3518473_37) {
+coraReturn(co, v__3517501_37);
 return;
 } else {
-Obj v__3518385_37 = makeCons(co->gc, v__3517608_37, Nil);
-Obj v__3518386_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518385_37);
-coraReturn(co, v__3518386_37);
+Obj v__3518474_37 = makeCons(co->gc, v__3517697_37, Nil);
+Obj v__3518475_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518474_37);
+coraReturn(co, v__3518475_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518450_37= co->res;
-Obj v__3518448_37 = R[1];
-Obj v__3518451_37 = makeCons(co->gc, v__3518448_37, v__3518450_37);
-Obj v__3518452_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518451_37);
-coraReturn(co, v__3518452_37);
+Obj v__3518539_37= co->res;
+Obj v__3518537_37 = R[1];
+Obj v__3518540_37 = makeCons(co->gc, v__3518537_37, v__3518539_37);
+Obj v__3518541_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518540_37);
+coraReturn(co, v__3518541_37);
 return;
 }
 case 3:
 {
-Obj v__3518449_37= co->res;
-Obj v__3517618_37 = R[1];
-Obj v__3518448_37 = R[2];
-R[1] = v__3518448_37;
+Obj v__3518538_37= co->res;
+Obj v__3517707_37 = R[1];
+Obj v__3518537_37 = R[2];
+R[1] = v__3518537_37;
 saveCont(co, clofun46, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518449_37, v__3517618_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518538_37, v__3517707_37);
 return;
 }
 case 4:
 {
-Obj v__3518445_37= co->res;
-Obj v__3517616_37 = R[1];
-Obj v__3517413_37 = R[2];
-Obj v__3517618_37 = R[3];
-Obj v__3518446_37 = makeCons(co->gc, v__3518445_37, Nil);
-Obj v__3518447_37 = makeCons(co->gc, v__3517616_37, v__3518446_37);
-Obj v__3518448_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518447_37);
-R[1] = v__3517618_37;
-R[2] = v__3518448_37;
+Obj v__3518534_37= co->res;
+Obj v__3517705_37 = R[1];
+Obj v__3517500_37 = R[2];
+Obj v__3517707_37 = R[3];
+Obj v__3518535_37 = makeCons(co->gc, v__3518534_37, Nil);
+Obj v__3518536_37 = makeCons(co->gc, v__3517705_37, v__3518535_37);
+Obj v__3518537_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518536_37);
+R[1] = v__3517707_37;
+R[2] = v__3518537_37;
 saveCont(co, clofun46, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3517413_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3517500_37);
 return;
 }
 case 5:
 {
-Obj v__3518444_37= co->res;
-Obj v__3517617_37 = R[1];
-Obj v__3517616_37 = R[2];
-Obj v__3517413_37 = R[3];
-Obj v__3517618_37 = v__3518444_37;
-R[1] = v__3517616_37;
-R[2] = v__3517413_37;
-R[3] = v__3517618_37;
+Obj v__3518533_37= co->res;
+Obj v__3517706_37 = R[1];
+Obj v__3517705_37 = R[2];
+Obj v__3517500_37 = R[3];
+Obj v__3517707_37 = v__3518533_37;
+R[1] = v__3517705_37;
+R[2] = v__3517500_37;
+R[3] = v__3517707_37;
 saveCont(co, clofun46, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517618_37, v__3517617_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517707_37, v__3517706_37);
 return;
 }
 case 6:
 {
-Obj v__3518381_37= co->res;
-Obj v__3517414_37 = R[1];
-Obj v__3517413_37 = R[2];
-if (True == v__3518381_37) {
-coraReturn(co, v__3517414_37);
+Obj v__3518470_37= co->res;
+Obj v__3517501_37 = R[1];
+Obj v__3517500_37 = R[2];
+if (True == v__3518470_37) {
+coraReturn(co, v__3517501_37);
 return;
 } else {
-Obj v__3518382_37 = primIsSymbol(v__3517414_37);
-if (True == v__3518382_37) {
-R[1] = v__3517414_37;
+Obj v__3518471_37 = primIsSymbol(v__3517501_37);
+if (True == v__3518471_37) {
+R[1] = v__3517501_37;
 saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517414_37, v__3517413_37);
-return;
-} else {
-Obj v__3517609_37 = makeNative(co->gc, 3, clofun45, 0, 2, v__3517414_37, v__3517413_37);
-Obj v__3518424_37 = PRIM_ISCONS(v__3517414_37);
-if (True == v__3518424_37) {
-Obj v__3518425_37 = PRIM_CAR(v__3517414_37);
-Obj v__3518426_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518425_37);
-if (True == v__3518426_37) {
-Obj v__3518427_37 = PRIM_CDR(v__3517414_37);
-Obj v__3518428_37 = PRIM_ISCONS(v__3518427_37);
-if (True == v__3518428_37) {
-Obj v__3518429_37 = PRIM_CDR(v__3517414_37);
-Obj v__3518430_37 = PRIM_CAR(v__3518429_37);
-Obj v__3517616_37 = v__3518430_37;
-Obj v__3518431_37 = PRIM_CDR(v__3517414_37);
-Obj v__3518432_37 = PRIM_CDR(v__3518431_37);
-Obj v__3518433_37 = PRIM_ISCONS(v__3518432_37);
-if (True == v__3518433_37) {
-Obj v__3518434_37 = PRIM_CDR(v__3517414_37);
-Obj v__3518435_37 = PRIM_CDR(v__3518434_37);
-Obj v__3518436_37 = PRIM_CAR(v__3518435_37);
-Obj v__3517617_37 = v__3518436_37;
-Obj v__3518437_37 = PRIM_CDR(v__3517414_37);
-Obj v__3518438_37 = PRIM_CDR(v__3518437_37);
-Obj v__3518439_37 = PRIM_CDR(v__3518438_37);
-Obj v__3518440_37 = PRIM_EQ(Nil, v__3518439_37);
-if (True == v__3518440_37) {
-Obj v__3518441_37 = makeCons(co->gc, v__3517617_37, Nil);
-Obj v__3518442_37 = makeCons(co->gc, v__3517616_37, v__3518441_37);
-Obj v__3518443_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518442_37);
-R[1] = v__3517617_37;
-R[2] = v__3517616_37;
-R[3] = v__3517413_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517501_37, v__3517500_37);
+return;
+} else {
+Obj v__3517698_37 = makeNative(co->gc, 3, clofun45, 0, 2, v__3517501_37, v__3517500_37);
+Obj v__3518513_37 = PRIM_ISCONS(v__3517501_37);
+if (True == v__3518513_37) {
+Obj v__3518514_37 = PRIM_CAR(v__3517501_37);
+Obj v__3518515_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518514_37);
+if (True == v__3518515_37) {
+Obj v__3518516_37 = PRIM_CDR(v__3517501_37);
+Obj v__3518517_37 = PRIM_ISCONS(v__3518516_37);
+if (True == v__3518517_37) {
+Obj v__3518518_37 = PRIM_CDR(v__3517501_37);
+Obj v__3518519_37 = PRIM_CAR(v__3518518_37);
+Obj v__3517705_37 = v__3518519_37;
+Obj v__3518520_37 = PRIM_CDR(v__3517501_37);
+Obj v__3518521_37 = PRIM_CDR(v__3518520_37);
+Obj v__3518522_37 = PRIM_ISCONS(v__3518521_37);
+if (True == v__3518522_37) {
+Obj v__3518523_37 = PRIM_CDR(v__3517501_37);
+Obj v__3518524_37 = PRIM_CDR(v__3518523_37);
+Obj v__3518525_37 = PRIM_CAR(v__3518524_37);
+Obj v__3517706_37 = v__3518525_37;
+Obj v__3518526_37 = PRIM_CDR(v__3517501_37);
+Obj v__3518527_37 = PRIM_CDR(v__3518526_37);
+Obj v__3518528_37 = PRIM_CDR(v__3518527_37);
+Obj v__3518529_37 = PRIM_EQ(Nil, v__3518528_37);
+if (True == v__3518529_37) {
+Obj v__3518530_37 = makeCons(co->gc, v__3517706_37, Nil);
+Obj v__3518531_37 = makeCons(co->gc, v__3517705_37, v__3518530_37);
+Obj v__3518532_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518531_37);
+R[1] = v__3517706_37;
+R[2] = v__3517705_37;
+R[3] = v__3517500_37;
 saveCont(co, clofun46, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518443_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518532_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517609_37);
+coraCall0(co, v__3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517609_37);
+coraCall0(co, v__3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517609_37);
+coraCall0(co, v__3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517609_37);
+coraCall0(co, v__3517698_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517609_37);
+coraCall0(co, v__3517698_37);
 return;
 }
 }
@@ -6477,99 +6477,99 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517610_37 = makeNative(co->gc, 3, clofun44, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518392_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518392_37) {
-Obj v__3518393_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518394_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518393_37);
-if (True == v__3518394_37) {
-Obj v__3518395_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518396_37 = PRIM_ISCONS(v__3518395_37);
-if (True == v__3518396_37) {
-Obj v__3518397_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518398_37 = PRIM_CAR(v__3518397_37);
-Obj v__3517613_37 = v__3518398_37;
-Obj v__3518399_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518400_37 = PRIM_CDR(v__3518399_37);
-Obj v__3518401_37 = PRIM_ISCONS(v__3518400_37);
-if (True == v__3518401_37) {
-Obj v__3518402_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518403_37 = PRIM_CDR(v__3518402_37);
-Obj v__3518404_37 = PRIM_CAR(v__3518403_37);
-Obj v__3517614_37 = v__3518404_37;
-Obj v__3518405_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518406_37 = PRIM_CDR(v__3518405_37);
-Obj v__3518407_37 = PRIM_CDR(v__3518406_37);
-Obj v__3518408_37 = PRIM_ISCONS(v__3518407_37);
-if (True == v__3518408_37) {
-Obj v__3518409_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518410_37 = PRIM_CDR(v__3518409_37);
-Obj v__3518411_37 = PRIM_CDR(v__3518410_37);
-Obj v__3518412_37 = PRIM_CAR(v__3518411_37);
-Obj v__3517615_37 = v__3518412_37;
-Obj v__3518413_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518414_37 = PRIM_CDR(v__3518413_37);
-Obj v__3518415_37 = PRIM_CDR(v__3518414_37);
-Obj v__3518416_37 = PRIM_CDR(v__3518415_37);
-Obj v__3518417_37 = PRIM_EQ(Nil, v__3518416_37);
-if (True == v__3518417_37) {
-R[1] = v__3517615_37;
-R[2] = v__3517613_37;
+Obj v__3517699_37 = makeNative(co->gc, 3, clofun44, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3518481_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518481_37) {
+Obj v__3518482_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518483_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518482_37);
+if (True == v__3518483_37) {
+Obj v__3518484_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518485_37 = PRIM_ISCONS(v__3518484_37);
+if (True == v__3518485_37) {
+Obj v__3518486_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518487_37 = PRIM_CAR(v__3518486_37);
+Obj v__3517702_37 = v__3518487_37;
+Obj v__3518488_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
+Obj v__3518490_37 = PRIM_ISCONS(v__3518489_37);
+if (True == v__3518490_37) {
+Obj v__3518491_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518492_37 = PRIM_CDR(v__3518491_37);
+Obj v__3518493_37 = PRIM_CAR(v__3518492_37);
+Obj v__3517703_37 = v__3518493_37;
+Obj v__3518494_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518495_37 = PRIM_CDR(v__3518494_37);
+Obj v__3518496_37 = PRIM_CDR(v__3518495_37);
+Obj v__3518497_37 = PRIM_ISCONS(v__3518496_37);
+if (True == v__3518497_37) {
+Obj v__3518498_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518499_37 = PRIM_CDR(v__3518498_37);
+Obj v__3518500_37 = PRIM_CDR(v__3518499_37);
+Obj v__3518501_37 = PRIM_CAR(v__3518500_37);
+Obj v__3517704_37 = v__3518501_37;
+Obj v__3518502_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518503_37 = PRIM_CDR(v__3518502_37);
+Obj v__3518504_37 = PRIM_CDR(v__3518503_37);
+Obj v__3518505_37 = PRIM_CDR(v__3518504_37);
+Obj v__3518506_37 = PRIM_EQ(Nil, v__3518505_37);
+if (True == v__3518506_37) {
+R[1] = v__3517704_37;
+R[2] = v__3517702_37;
 saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517614_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517703_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517610_37);
+coraCall0(co, v__3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517610_37);
+coraCall0(co, v__3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517610_37);
+coraCall0(co, v__3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517610_37);
+coraCall0(co, v__3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517610_37);
+coraCall0(co, v__3517699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517610_37);
+coraCall0(co, v__3517699_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518419_37= co->res;
-Obj v__3518418_37 = R[1];
-Obj v__3517613_37 = R[2];
-Obj v__3518420_37 = makeCons(co->gc, v__3518419_37, Nil);
-Obj v__3518421_37 = makeCons(co->gc, v__3518418_37, v__3518420_37);
-Obj v__3518422_37 = makeCons(co->gc, v__3517613_37, v__3518421_37);
-Obj v__3518423_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518422_37);
-coraReturn(co, v__3518423_37);
+Obj v__3518508_37= co->res;
+Obj v__3518507_37 = R[1];
+Obj v__3517702_37 = R[2];
+Obj v__3518509_37 = makeCons(co->gc, v__3518508_37, Nil);
+Obj v__3518510_37 = makeCons(co->gc, v__3518507_37, v__3518509_37);
+Obj v__3518511_37 = makeCons(co->gc, v__3517702_37, v__3518510_37);
+Obj v__3518512_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518511_37);
+coraReturn(co, v__3518512_37);
 return;
 }
 case 2:
 {
-Obj v__3518418_37= co->res;
-Obj v__3517615_37 = R[1];
-Obj v__3517613_37 = R[2];
-R[1] = v__3518418_37;
-R[2] = v__3517613_37;
+Obj v__3518507_37= co->res;
+Obj v__3517704_37 = R[1];
+Obj v__3517702_37 = R[2];
+R[1] = v__3518507_37;
+R[2] = v__3517702_37;
 saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517615_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517704_37);
 return;
 }
 }
@@ -6579,14 +6579,14 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518387_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518387_37) {
-Obj v__3518388_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517611_37 = v__3518388_37;
-Obj v__3518389_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517612_37 = v__3518389_37;
-R[1] = v__3517611_37;
-R[2] = v__3517612_37;
+Obj v__3518476_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518476_37) {
+Obj v__3518477_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517700_37 = v__3518477_37;
+Obj v__3518478_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517701_37 = v__3518478_37;
+R[1] = v__3517700_37;
+R[2] = v__3517701_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
@@ -6598,12 +6598,12 @@ return;
 }
 case 1:
 {
-Obj v__3518390_37= co->res;
-Obj v__3517611_37 = R[1];
-Obj v__3517612_37 = R[2];
-Obj v__3518391_37 = makeCons(co->gc, v__3517611_37, v__3517612_37);
+Obj v__3518479_37= co->res;
+Obj v__3517700_37 = R[1];
+Obj v__3517701_37 = R[2];
+Obj v__3518480_37 = makeCons(co->gc, v__3517700_37, v__3517701_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518390_37, v__3518391_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518479_37, v__3518480_37);
 return;
 }
 }
@@ -6613,86 +6613,86 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517400_37 = R[1];
-R[1] = v__3517400_37;
+Obj v__3517487_37 = R[1];
+R[1] = v__3517487_37;
 saveCont(co, clofun43, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517400_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517487_37);
 return;
 }
 case 1:
 {
-Obj v__3518379_37= co->res;
-Obj v__3517606_37 = R[1];
+Obj v__3518468_37= co->res;
+Obj v__3517695_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518379_37, v__3517606_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518468_37, v__3517695_37);
 return;
 }
 case 2:
 {
-Obj v__3518206_37= co->res;
-Obj v__3517400_37 = R[1];
-if (True == v__3518206_37) {
+Obj v__3518295_37= co->res;
+Obj v__3517487_37 = R[1];
+if (True == v__3518295_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518207_37 = primIsSymbol(v__3517400_37);
-if (True == v__3518207_37) {
-Obj v__3518208_37 = makeCons(co->gc, v__3517400_37, Nil);
-coraReturn(co, v__3518208_37);
-return;
-} else {
-Obj v__3517579_37 = makeNative(co->gc, 1, clofun42, 0, 1, v__3517400_37);
-Obj v__3518362_37 = PRIM_ISCONS(v__3517400_37);
-if (True == v__3518362_37) {
-Obj v__3518363_37 = PRIM_CAR(v__3517400_37);
-Obj v__3518364_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518363_37);
-if (True == v__3518364_37) {
-Obj v__3518365_37 = PRIM_CDR(v__3517400_37);
-Obj v__3518366_37 = PRIM_ISCONS(v__3518365_37);
-if (True == v__3518366_37) {
-Obj v__3518367_37 = PRIM_CDR(v__3517400_37);
-Obj v__3518368_37 = PRIM_CAR(v__3518367_37);
-Obj v__3517606_37 = v__3518368_37;
-Obj v__3518369_37 = PRIM_CDR(v__3517400_37);
-Obj v__3518370_37 = PRIM_CDR(v__3518369_37);
-Obj v__3518371_37 = PRIM_ISCONS(v__3518370_37);
-if (True == v__3518371_37) {
-Obj v__3518372_37 = PRIM_CDR(v__3517400_37);
-Obj v__3518373_37 = PRIM_CDR(v__3518372_37);
-Obj v__3518374_37 = PRIM_CAR(v__3518373_37);
-Obj v__3517607_37 = v__3518374_37;
-Obj v__3518375_37 = PRIM_CDR(v__3517400_37);
-Obj v__3518376_37 = PRIM_CDR(v__3518375_37);
-Obj v__3518377_37 = PRIM_CDR(v__3518376_37);
-Obj v__3518378_37 = PRIM_EQ(Nil, v__3518377_37);
-if (True == v__3518378_37) {
-R[1] = v__3517606_37;
+Obj v__3518296_37 = primIsSymbol(v__3517487_37);
+if (True == v__3518296_37) {
+Obj v__3518297_37 = makeCons(co->gc, v__3517487_37, Nil);
+coraReturn(co, v__3518297_37);
+return;
+} else {
+Obj v__3517668_37 = makeNative(co->gc, 1, clofun42, 0, 1, v__3517487_37);
+Obj v__3518451_37 = PRIM_ISCONS(v__3517487_37);
+if (True == v__3518451_37) {
+Obj v__3518452_37 = PRIM_CAR(v__3517487_37);
+Obj v__3518453_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518452_37);
+if (True == v__3518453_37) {
+Obj v__3518454_37 = PRIM_CDR(v__3517487_37);
+Obj v__3518455_37 = PRIM_ISCONS(v__3518454_37);
+if (True == v__3518455_37) {
+Obj v__3518456_37 = PRIM_CDR(v__3517487_37);
+Obj v__3518457_37 = PRIM_CAR(v__3518456_37);
+Obj v__3517695_37 = v__3518457_37;
+Obj v__3518458_37 = PRIM_CDR(v__3517487_37);
+Obj v__3518459_37 = PRIM_CDR(v__3518458_37);
+Obj v__3518460_37 = PRIM_ISCONS(v__3518459_37);
+if (True == v__3518460_37) {
+Obj v__3518461_37 = PRIM_CDR(v__3517487_37);
+Obj v__3518462_37 = PRIM_CDR(v__3518461_37);
+Obj v__3518463_37 = PRIM_CAR(v__3518462_37);
+Obj v__3517696_37 = v__3518463_37;
+Obj v__3518464_37 = PRIM_CDR(v__3517487_37);
+Obj v__3518465_37 = PRIM_CDR(v__3518464_37);
+Obj v__3518466_37 = PRIM_CDR(v__3518465_37);
+Obj v__3518467_37 = PRIM_EQ(Nil, v__3518466_37);
+if (True == v__3518467_37) {
+R[1] = v__3517695_37;
 saveCont(co, clofun43, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517607_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517696_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517668_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517579_37);
+coraCall0(co, v__3517668_37);
 return;
 }
 }
@@ -6705,84 +6705,84 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517580_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v__3518332_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518332_37) {
-Obj v__3518333_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518334_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518333_37);
-if (True == v__3518334_37) {
-Obj v__3518335_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518336_37 = PRIM_ISCONS(v__3518335_37);
-if (True == v__3518336_37) {
-Obj v__3518337_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518338_37 = PRIM_CAR(v__3518337_37);
-Obj v__3517603_37 = v__3518338_37;
-Obj v__3518339_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518340_37 = PRIM_CDR(v__3518339_37);
-Obj v__3518341_37 = PRIM_ISCONS(v__3518340_37);
-if (True == v__3518341_37) {
-Obj v__3518342_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518343_37 = PRIM_CDR(v__3518342_37);
-Obj v__3518344_37 = PRIM_CAR(v__3518343_37);
-Obj v__3517604_37 = v__3518344_37;
-Obj v__3518345_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518346_37 = PRIM_CDR(v__3518345_37);
-Obj v__3518347_37 = PRIM_CDR(v__3518346_37);
-Obj v__3518348_37 = PRIM_ISCONS(v__3518347_37);
-if (True == v__3518348_37) {
-Obj v__3518349_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518350_37 = PRIM_CDR(v__3518349_37);
-Obj v__3518351_37 = PRIM_CDR(v__3518350_37);
-Obj v__3518352_37 = PRIM_CAR(v__3518351_37);
-Obj v__3517605_37 = v__3518352_37;
-Obj v__3518353_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518354_37 = PRIM_CDR(v__3518353_37);
-Obj v__3518355_37 = PRIM_CDR(v__3518354_37);
-Obj v__3518356_37 = PRIM_CDR(v__3518355_37);
-Obj v__3518357_37 = PRIM_EQ(Nil, v__3518356_37);
-if (True == v__3518357_37) {
-Obj v__3518358_37 = makeCons(co->gc, v__3517605_37, Nil);
-Obj v__3518359_37 = makeCons(co->gc, v__3517604_37, v__3518358_37);
-Obj v__3518360_37 = makeCons(co->gc, v__3517603_37, v__3518359_37);
+Obj v__3517669_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3518421_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518421_37) {
+Obj v__3518422_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518423_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518422_37);
+if (True == v__3518423_37) {
+Obj v__3518424_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518425_37 = PRIM_ISCONS(v__3518424_37);
+if (True == v__3518425_37) {
+Obj v__3518426_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518427_37 = PRIM_CAR(v__3518426_37);
+Obj v__3517692_37 = v__3518427_37;
+Obj v__3518428_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518429_37 = PRIM_CDR(v__3518428_37);
+Obj v__3518430_37 = PRIM_ISCONS(v__3518429_37);
+if (True == v__3518430_37) {
+Obj v__3518431_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518432_37 = PRIM_CDR(v__3518431_37);
+Obj v__3518433_37 = PRIM_CAR(v__3518432_37);
+Obj v__3517693_37 = v__3518433_37;
+Obj v__3518434_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518435_37 = PRIM_CDR(v__3518434_37);
+Obj v__3518436_37 = PRIM_CDR(v__3518435_37);
+Obj v__3518437_37 = PRIM_ISCONS(v__3518436_37);
+if (True == v__3518437_37) {
+Obj v__3518438_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518439_37 = PRIM_CDR(v__3518438_37);
+Obj v__3518440_37 = PRIM_CDR(v__3518439_37);
+Obj v__3518441_37 = PRIM_CAR(v__3518440_37);
+Obj v__3517694_37 = v__3518441_37;
+Obj v__3518442_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518443_37 = PRIM_CDR(v__3518442_37);
+Obj v__3518444_37 = PRIM_CDR(v__3518443_37);
+Obj v__3518445_37 = PRIM_CDR(v__3518444_37);
+Obj v__3518446_37 = PRIM_EQ(Nil, v__3518445_37);
+if (True == v__3518446_37) {
+Obj v__3518447_37 = makeCons(co->gc, v__3517694_37, Nil);
+Obj v__3518448_37 = makeCons(co->gc, v__3517693_37, v__3518447_37);
+Obj v__3518449_37 = makeCons(co->gc, v__3517692_37, v__3518448_37);
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518360_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518449_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517580_37);
+coraCall0(co, v__3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517580_37);
+coraCall0(co, v__3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517580_37);
+coraCall0(co, v__3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517580_37);
+coraCall0(co, v__3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517580_37);
+coraCall0(co, v__3517669_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517580_37);
+coraCall0(co, v__3517669_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518361_37= co->res;
+Obj v__3518450_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518361_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518450_37);
 return;
 }
 }
@@ -6792,67 +6792,67 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517581_37 = makeNative(co->gc, 3, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3518312_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518312_37) {
-Obj v__3518313_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518314_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518313_37);
-if (True == v__3518314_37) {
-Obj v__3518315_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518316_37 = PRIM_ISCONS(v__3518315_37);
-if (True == v__3518316_37) {
-Obj v__3518317_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518318_37 = PRIM_CAR(v__3518317_37);
-Obj v__3517601_37 = v__3518318_37;
-Obj v__3518319_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518320_37 = PRIM_CDR(v__3518319_37);
-Obj v__3518321_37 = PRIM_ISCONS(v__3518320_37);
-if (True == v__3518321_37) {
-Obj v__3518322_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518323_37 = PRIM_CDR(v__3518322_37);
-Obj v__3518324_37 = PRIM_CAR(v__3518323_37);
-Obj v__3517602_37 = v__3518324_37;
-Obj v__3518325_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518326_37 = PRIM_CDR(v__3518325_37);
-Obj v__3518327_37 = PRIM_CDR(v__3518326_37);
-Obj v__3518328_37 = PRIM_EQ(Nil, v__3518327_37);
-if (True == v__3518328_37) {
-Obj v__3518329_37 = makeCons(co->gc, v__3517602_37, Nil);
-Obj v__3518330_37 = makeCons(co->gc, v__3517601_37, v__3518329_37);
+Obj v__3517670_37 = makeNative(co->gc, 3, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3518401_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518401_37) {
+Obj v__3518402_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518403_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518402_37);
+if (True == v__3518403_37) {
+Obj v__3518404_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518405_37 = PRIM_ISCONS(v__3518404_37);
+if (True == v__3518405_37) {
+Obj v__3518406_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518407_37 = PRIM_CAR(v__3518406_37);
+Obj v__3517690_37 = v__3518407_37;
+Obj v__3518408_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518409_37 = PRIM_CDR(v__3518408_37);
+Obj v__3518410_37 = PRIM_ISCONS(v__3518409_37);
+if (True == v__3518410_37) {
+Obj v__3518411_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518412_37 = PRIM_CDR(v__3518411_37);
+Obj v__3518413_37 = PRIM_CAR(v__3518412_37);
+Obj v__3517691_37 = v__3518413_37;
+Obj v__3518414_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518415_37 = PRIM_CDR(v__3518414_37);
+Obj v__3518416_37 = PRIM_CDR(v__3518415_37);
+Obj v__3518417_37 = PRIM_EQ(Nil, v__3518416_37);
+if (True == v__3518417_37) {
+Obj v__3518418_37 = makeCons(co->gc, v__3517691_37, Nil);
+Obj v__3518419_37 = makeCons(co->gc, v__3517690_37, v__3518418_37);
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518330_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518419_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517581_37);
+coraCall0(co, v__3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517581_37);
+coraCall0(co, v__3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517581_37);
+coraCall0(co, v__3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517581_37);
+coraCall0(co, v__3517670_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517581_37);
+coraCall0(co, v__3517670_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518331_37= co->res;
+Obj v__3518420_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518331_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518420_37);
 return;
 }
 }
@@ -6862,106 +6862,106 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517582_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3518282_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518282_37) {
-Obj v__3518283_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518284_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518283_37);
-if (True == v__3518284_37) {
-Obj v__3518285_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518286_37 = PRIM_ISCONS(v__3518285_37);
-if (True == v__3518286_37) {
-Obj v__3518287_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518288_37 = PRIM_CAR(v__3518287_37);
-Obj v__3517598_37 = v__3518288_37;
-Obj v__3518289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518290_37 = PRIM_CDR(v__3518289_37);
-Obj v__3518291_37 = PRIM_ISCONS(v__3518290_37);
-if (True == v__3518291_37) {
-Obj v__3518292_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518293_37 = PRIM_CDR(v__3518292_37);
-Obj v__3518294_37 = PRIM_CAR(v__3518293_37);
-Obj v__3517599_37 = v__3518294_37;
-Obj v__3518295_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518296_37 = PRIM_CDR(v__3518295_37);
-Obj v__3518297_37 = PRIM_CDR(v__3518296_37);
-Obj v__3518298_37 = PRIM_ISCONS(v__3518297_37);
-if (True == v__3518298_37) {
-Obj v__3518299_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518300_37 = PRIM_CDR(v__3518299_37);
-Obj v__3518301_37 = PRIM_CDR(v__3518300_37);
-Obj v__3518302_37 = PRIM_CAR(v__3518301_37);
-Obj v__3517600_37 = v__3518302_37;
-Obj v__3518303_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518304_37 = PRIM_CDR(v__3518303_37);
-Obj v__3518305_37 = PRIM_CDR(v__3518304_37);
-Obj v__3518306_37 = PRIM_CDR(v__3518305_37);
-Obj v__3518307_37 = PRIM_EQ(Nil, v__3518306_37);
-if (True == v__3518307_37) {
-R[1] = v__3517600_37;
-R[2] = v__3517598_37;
+Obj v__3517671_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3518371_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518371_37) {
+Obj v__3518372_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518373_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518372_37);
+if (True == v__3518373_37) {
+Obj v__3518374_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518375_37 = PRIM_ISCONS(v__3518374_37);
+if (True == v__3518375_37) {
+Obj v__3518376_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518377_37 = PRIM_CAR(v__3518376_37);
+Obj v__3517687_37 = v__3518377_37;
+Obj v__3518378_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518379_37 = PRIM_CDR(v__3518378_37);
+Obj v__3518380_37 = PRIM_ISCONS(v__3518379_37);
+if (True == v__3518380_37) {
+Obj v__3518381_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518382_37 = PRIM_CDR(v__3518381_37);
+Obj v__3518383_37 = PRIM_CAR(v__3518382_37);
+Obj v__3517688_37 = v__3518383_37;
+Obj v__3518384_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518385_37 = PRIM_CDR(v__3518384_37);
+Obj v__3518386_37 = PRIM_CDR(v__3518385_37);
+Obj v__3518387_37 = PRIM_ISCONS(v__3518386_37);
+if (True == v__3518387_37) {
+Obj v__3518388_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518389_37 = PRIM_CDR(v__3518388_37);
+Obj v__3518390_37 = PRIM_CDR(v__3518389_37);
+Obj v__3518391_37 = PRIM_CAR(v__3518390_37);
+Obj v__3517689_37 = v__3518391_37;
+Obj v__3518392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518393_37 = PRIM_CDR(v__3518392_37);
+Obj v__3518394_37 = PRIM_CDR(v__3518393_37);
+Obj v__3518395_37 = PRIM_CDR(v__3518394_37);
+Obj v__3518396_37 = PRIM_EQ(Nil, v__3518395_37);
+if (True == v__3518396_37) {
+R[1] = v__3517689_37;
+R[2] = v__3517687_37;
 saveCont(co, clofun40, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517599_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517688_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3517671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3517671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3517671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3517671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3517671_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517582_37);
+coraCall0(co, v__3517671_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518311_37= co->res;
-Obj v__3518308_37 = R[1];
+Obj v__3518400_37= co->res;
+Obj v__3518397_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518308_37, v__3518311_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518397_37, v__3518400_37);
 return;
 }
 case 2:
 {
-Obj v__3518309_37= co->res;
-Obj v__3517598_37 = R[1];
-Obj v__3518308_37 = R[2];
-Obj v__3518310_37 = makeCons(co->gc, v__3517598_37, Nil);
-R[1] = v__3518308_37;
+Obj v__3518398_37= co->res;
+Obj v__3517687_37 = R[1];
+Obj v__3518397_37 = R[2];
+Obj v__3518399_37 = makeCons(co->gc, v__3517687_37, Nil);
+R[1] = v__3518397_37;
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518309_37, v__3518310_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518398_37, v__3518399_37);
 return;
 }
 case 3:
 {
-Obj v__3518308_37= co->res;
-Obj v__3517600_37 = R[1];
-Obj v__3517598_37 = R[2];
-R[1] = v__3517598_37;
-R[2] = v__3518308_37;
+Obj v__3518397_37= co->res;
+Obj v__3517689_37 = R[1];
+Obj v__3517687_37 = R[2];
+R[1] = v__3517687_37;
+R[2] = v__3518397_37;
 saveCont(co, clofun40, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517600_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517689_37);
 return;
 }
 }
@@ -6971,38 +6971,38 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517583_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3518272_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518272_37) {
-Obj v__3518273_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518274_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518273_37);
-if (True == v__3518274_37) {
-Obj v__3518275_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518276_37 = PRIM_ISCONS(v__3518275_37);
-if (True == v__3518276_37) {
-Obj v__3518277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518278_37 = PRIM_CAR(v__3518277_37);
-Obj v__3517596_37 = v__3518278_37;
-Obj v__3518279_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518280_37 = PRIM_CDR(v__3518279_37);
-Obj v__3517597_37 = v__3518280_37;
-Obj v__3518281_37 = makeCons(co->gc, v__3517596_37, v__3517597_37);
+Obj v__3517672_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3518361_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518361_37) {
+Obj v__3518362_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518363_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518362_37);
+if (True == v__3518363_37) {
+Obj v__3518364_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518365_37 = PRIM_ISCONS(v__3518364_37);
+if (True == v__3518365_37) {
+Obj v__3518366_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518367_37 = PRIM_CAR(v__3518366_37);
+Obj v__3517685_37 = v__3518367_37;
+Obj v__3518368_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518369_37 = PRIM_CDR(v__3518368_37);
+Obj v__3517686_37 = v__3518369_37;
+Obj v__3518370_37 = makeCons(co->gc, v__3517685_37, v__3517686_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518281_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518370_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517583_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517583_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517583_37);
+coraCall0(co, v__3517672_37);
 return;
 }
 }
@@ -7013,43 +7013,43 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517584_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3518262_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518262_37) {
-Obj v__3518263_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518264_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518263_37);
-if (True == v__3518264_37) {
-Obj v__3518265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518266_37 = PRIM_ISCONS(v__3518265_37);
-if (True == v__3518266_37) {
-Obj v__3518267_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518268_37 = PRIM_CAR(v__3518267_37);
-Obj v__3517595_37 = v__3518268_37;
-Obj v__3518269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518270_37 = PRIM_CDR(v__3518269_37);
-Obj v__3518271_37 = PRIM_EQ(Nil, v__3518270_37);
-if (True == v__3518271_37) {
+Obj v__3517673_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3518351_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518351_37) {
+Obj v__3518352_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518353_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518352_37);
+if (True == v__3518353_37) {
+Obj v__3518354_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518355_37 = PRIM_ISCONS(v__3518354_37);
+if (True == v__3518355_37) {
+Obj v__3518356_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518357_37 = PRIM_CAR(v__3518356_37);
+Obj v__3517684_37 = v__3518357_37;
+Obj v__3518358_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518359_37 = PRIM_CDR(v__3518358_37);
+Obj v__3518360_37 = PRIM_EQ(Nil, v__3518359_37);
+if (True == v__3518360_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517684_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517584_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517584_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517584_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517584_37);
+coraCall0(co, v__3517673_37);
 return;
 }
 }
@@ -7060,67 +7060,67 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517585_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3518242_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518242_37) {
-Obj v__3518243_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518244_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518243_37);
-if (True == v__3518244_37) {
-Obj v__3518245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518246_37 = PRIM_ISCONS(v__3518245_37);
-if (True == v__3518246_37) {
-Obj v__3518247_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518248_37 = PRIM_CAR(v__3518247_37);
-Obj v__3517593_37 = v__3518248_37;
-Obj v__3518249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518250_37 = PRIM_CDR(v__3518249_37);
-Obj v__3518251_37 = PRIM_ISCONS(v__3518250_37);
-if (True == v__3518251_37) {
-Obj v__3518252_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518253_37 = PRIM_CDR(v__3518252_37);
-Obj v__3518254_37 = PRIM_CAR(v__3518253_37);
-Obj v__3517594_37 = v__3518254_37;
-Obj v__3518255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518256_37 = PRIM_CDR(v__3518255_37);
-Obj v__3518257_37 = PRIM_CDR(v__3518256_37);
-Obj v__3518258_37 = PRIM_EQ(Nil, v__3518257_37);
-if (True == v__3518258_37) {
-Obj v__3518259_37 = makeCons(co->gc, v__3517594_37, Nil);
-Obj v__3518260_37 = makeCons(co->gc, v__3517593_37, v__3518259_37);
+Obj v__3517674_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3518331_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518331_37) {
+Obj v__3518332_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518333_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518332_37);
+if (True == v__3518333_37) {
+Obj v__3518334_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518335_37 = PRIM_ISCONS(v__3518334_37);
+if (True == v__3518335_37) {
+Obj v__3518336_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518337_37 = PRIM_CAR(v__3518336_37);
+Obj v__3517682_37 = v__3518337_37;
+Obj v__3518338_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518339_37 = PRIM_CDR(v__3518338_37);
+Obj v__3518340_37 = PRIM_ISCONS(v__3518339_37);
+if (True == v__3518340_37) {
+Obj v__3518341_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518342_37 = PRIM_CDR(v__3518341_37);
+Obj v__3518343_37 = PRIM_CAR(v__3518342_37);
+Obj v__3517683_37 = v__3518343_37;
+Obj v__3518344_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518345_37 = PRIM_CDR(v__3518344_37);
+Obj v__3518346_37 = PRIM_CDR(v__3518345_37);
+Obj v__3518347_37 = PRIM_EQ(Nil, v__3518346_37);
+if (True == v__3518347_37) {
+Obj v__3518348_37 = makeCons(co->gc, v__3517683_37, Nil);
+Obj v__3518349_37 = makeCons(co->gc, v__3517682_37, v__3518348_37);
 saveCont(co, clofun37, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518260_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518349_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517585_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517585_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517585_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517585_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517585_37);
+coraCall0(co, v__3517674_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518261_37= co->res;
+Obj v__3518350_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518261_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518350_37);
 return;
 }
 }
@@ -7130,43 +7130,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517586_37 = makeNative(co->gc, 2, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v__3518232_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518232_37) {
-Obj v__3518233_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518234_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518233_37);
-if (True == v__3518234_37) {
-Obj v__3518235_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518236_37 = PRIM_ISCONS(v__3518235_37);
-if (True == v__3518236_37) {
-Obj v__3518237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518238_37 = PRIM_CAR(v__3518237_37);
-Obj v__3517592_37 = v__3518238_37;
-Obj v__3518239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518240_37 = PRIM_CDR(v__3518239_37);
-Obj v__3518241_37 = PRIM_EQ(Nil, v__3518240_37);
-if (True == v__3518241_37) {
+Obj v__3517675_37 = makeNative(co->gc, 2, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3518321_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518321_37) {
+Obj v__3518322_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518323_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518322_37);
+if (True == v__3518323_37) {
+Obj v__3518324_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518325_37 = PRIM_ISCONS(v__3518324_37);
+if (True == v__3518325_37) {
+Obj v__3518326_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518327_37 = PRIM_CAR(v__3518326_37);
+Obj v__3517681_37 = v__3518327_37;
+Obj v__3518328_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518329_37 = PRIM_CDR(v__3518328_37);
+Obj v__3518330_37 = PRIM_EQ(Nil, v__3518329_37);
+if (True == v__3518330_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517592_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517681_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517586_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517586_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517586_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517586_37);
+coraCall0(co, v__3517675_37);
 return;
 }
 }
@@ -7177,67 +7177,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517587_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v__3518214_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518214_37) {
-Obj v__3518215_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518216_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518215_37);
-if (True == v__3518216_37) {
-Obj v__3518217_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518218_37 = PRIM_ISCONS(v__3518217_37);
-if (True == v__3518218_37) {
-Obj v__3518219_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518220_37 = PRIM_CAR(v__3518219_37);
-Obj v__3517590_37 = v__3518220_37;
-Obj v__3518221_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518222_37 = PRIM_CDR(v__3518221_37);
-Obj v__3518223_37 = PRIM_ISCONS(v__3518222_37);
-if (True == v__3518223_37) {
-Obj v__3518224_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518225_37 = PRIM_CDR(v__3518224_37);
-Obj v__3518226_37 = PRIM_CAR(v__3518225_37);
-Obj v__3517591_37 = v__3518226_37;
-Obj v__3518227_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518228_37 = PRIM_CDR(v__3518227_37);
-Obj v__3518229_37 = PRIM_CDR(v__3518228_37);
-Obj v__3518230_37 = PRIM_EQ(Nil, v__3518229_37);
-if (True == v__3518230_37) {
-R[1] = v__3517590_37;
+Obj v__3517676_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v__3518303_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518303_37) {
+Obj v__3518304_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518305_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518304_37);
+if (True == v__3518305_37) {
+Obj v__3518306_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518307_37 = PRIM_ISCONS(v__3518306_37);
+if (True == v__3518307_37) {
+Obj v__3518308_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518309_37 = PRIM_CAR(v__3518308_37);
+Obj v__3517679_37 = v__3518309_37;
+Obj v__3518310_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518311_37 = PRIM_CDR(v__3518310_37);
+Obj v__3518312_37 = PRIM_ISCONS(v__3518311_37);
+if (True == v__3518312_37) {
+Obj v__3518313_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518314_37 = PRIM_CDR(v__3518313_37);
+Obj v__3518315_37 = PRIM_CAR(v__3518314_37);
+Obj v__3517680_37 = v__3518315_37;
+Obj v__3518316_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518317_37 = PRIM_CDR(v__3518316_37);
+Obj v__3518318_37 = PRIM_CDR(v__3518317_37);
+Obj v__3518319_37 = PRIM_EQ(Nil, v__3518318_37);
+if (True == v__3518319_37) {
+R[1] = v__3517679_37;
 saveCont(co, clofun35, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517591_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517680_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517587_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517587_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517587_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517587_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517587_37);
+coraCall0(co, v__3517676_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518231_37= co->res;
-Obj v__3517590_37 = R[1];
+Obj v__3518320_37= co->res;
+Obj v__3517679_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518231_37, v__3517590_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518320_37, v__3517679_37);
 return;
 }
 }
@@ -7247,15 +7247,15 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518209_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518209_37) {
-Obj v__3518210_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517588_37 = v__3518210_37;
-Obj v__3518211_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517589_37 = v__3518211_37;
-Obj v__3518212_37 = makeCons(co->gc, v__3517588_37, v__3517589_37);
+Obj v__3518298_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518298_37) {
+Obj v__3518299_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517677_37 = v__3518299_37;
+Obj v__3518300_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517678_37 = v__3518300_37;
+Obj v__3518301_37 = makeCons(co->gc, v__3517677_37, v__3517678_37);
 saveCont(co, clofun34, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518212_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518301_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7265,9 +7265,9 @@ return;
 }
 case 1:
 {
-Obj v__3518213_37= co->res;
+Obj v__3518302_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518213_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518302_37);
 return;
 }
 }
@@ -7277,42 +7277,42 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517392_37 = R[1];
-Obj v__3517572_37 = makeNative(co->gc, 1, clofun32, 0, 1, v__3517392_37);
-Obj v__3518195_37 = PRIM_ISCONS(v__3517392_37);
-if (True == v__3518195_37) {
-Obj v__3518196_37 = PRIM_CAR(v__3517392_37);
-Obj v__3518197_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518196_37);
-if (True == v__3518197_37) {
-Obj v__3518198_37 = PRIM_CDR(v__3517392_37);
-Obj v__3518199_37 = PRIM_ISCONS(v__3518198_37);
-if (True == v__3518199_37) {
-Obj v__3518200_37 = PRIM_CDR(v__3517392_37);
-Obj v__3518201_37 = PRIM_CAR(v__3518200_37);
-Obj v__3518202_37 = PRIM_CDR(v__3517392_37);
-Obj v__3518203_37 = PRIM_CDR(v__3518202_37);
-Obj v__3518204_37 = PRIM_EQ(Nil, v__3518203_37);
-if (True == v__3518204_37) {
+Obj v__3517479_37 = R[1];
+Obj v__3517661_37 = makeNative(co->gc, 1, clofun32, 0, 1, v__3517479_37);
+Obj v__3518284_37 = PRIM_ISCONS(v__3517479_37);
+if (True == v__3518284_37) {
+Obj v__3518285_37 = PRIM_CAR(v__3517479_37);
+Obj v__3518286_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518285_37);
+if (True == v__3518286_37) {
+Obj v__3518287_37 = PRIM_CDR(v__3517479_37);
+Obj v__3518288_37 = PRIM_ISCONS(v__3518287_37);
+if (True == v__3518288_37) {
+Obj v__3518289_37 = PRIM_CDR(v__3517479_37);
+Obj v__3518290_37 = PRIM_CAR(v__3518289_37);
+Obj v__3518291_37 = PRIM_CDR(v__3517479_37);
+Obj v__3518292_37 = PRIM_CDR(v__3518291_37);
+Obj v__3518293_37 = PRIM_EQ(Nil, v__3518292_37);
+if (True == v__3518293_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517661_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517572_37);
+coraCall0(co, v__3517661_37);
 return;
 }
 }
@@ -7323,41 +7323,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517573_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj v__3518185_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518185_37) {
-Obj v__3518186_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518187_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3518186_37);
-if (True == v__3518187_37) {
-Obj v__3518188_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518189_37 = PRIM_ISCONS(v__3518188_37);
-if (True == v__3518189_37) {
-Obj v__3518190_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518191_37 = PRIM_CAR(v__3518190_37);
-Obj v__3518192_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518193_37 = PRIM_CDR(v__3518192_37);
-Obj v__3518194_37 = PRIM_EQ(Nil, v__3518193_37);
-if (True == v__3518194_37) {
+Obj v__3517662_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3518274_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518274_37) {
+Obj v__3518275_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518276_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3518275_37);
+if (True == v__3518276_37) {
+Obj v__3518277_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518278_37 = PRIM_ISCONS(v__3518277_37);
+if (True == v__3518278_37) {
+Obj v__3518279_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518280_37 = PRIM_CAR(v__3518279_37);
+Obj v__3518281_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518282_37 = PRIM_CDR(v__3518281_37);
+Obj v__3518283_37 = PRIM_EQ(Nil, v__3518282_37);
+if (True == v__3518283_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517573_37);
+coraCall0(co, v__3517662_37);
 return;
 }
 }
@@ -7368,41 +7368,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517574_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3518175_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518175_37) {
-Obj v__3518176_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518177_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518176_37);
-if (True == v__3518177_37) {
-Obj v__3518178_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518179_37 = PRIM_ISCONS(v__3518178_37);
-if (True == v__3518179_37) {
-Obj v__3518180_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518181_37 = PRIM_CAR(v__3518180_37);
-Obj v__3518182_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518183_37 = PRIM_CDR(v__3518182_37);
-Obj v__3518184_37 = PRIM_EQ(Nil, v__3518183_37);
-if (True == v__3518184_37) {
+Obj v__3517663_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3518264_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518264_37) {
+Obj v__3518265_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518266_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518265_37);
+if (True == v__3518266_37) {
+Obj v__3518267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518268_37 = PRIM_ISCONS(v__3518267_37);
+if (True == v__3518268_37) {
+Obj v__3518269_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518270_37 = PRIM_CAR(v__3518269_37);
+Obj v__3518271_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518272_37 = PRIM_CDR(v__3518271_37);
+Obj v__3518273_37 = PRIM_EQ(Nil, v__3518272_37);
+if (True == v__3518273_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517663_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517574_37);
+coraCall0(co, v__3517663_37);
 return;
 }
 }
@@ -7413,41 +7413,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517575_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v__3518165_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518165_37) {
-Obj v__3518166_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518167_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518166_37);
-if (True == v__3518167_37) {
-Obj v__3518168_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518169_37 = PRIM_ISCONS(v__3518168_37);
-if (True == v__3518169_37) {
-Obj v__3518170_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518171_37 = PRIM_CAR(v__3518170_37);
-Obj v__3518172_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518173_37 = PRIM_CDR(v__3518172_37);
-Obj v__3518174_37 = PRIM_EQ(Nil, v__3518173_37);
-if (True == v__3518174_37) {
+Obj v__3517664_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3518254_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518254_37) {
+Obj v__3518255_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518256_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518255_37);
+if (True == v__3518256_37) {
+Obj v__3518257_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518258_37 = PRIM_ISCONS(v__3518257_37);
+if (True == v__3518258_37) {
+Obj v__3518259_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518260_37 = PRIM_CAR(v__3518259_37);
+Obj v__3518261_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518262_37 = PRIM_CDR(v__3518261_37);
+Obj v__3518263_37 = PRIM_EQ(Nil, v__3518262_37);
+if (True == v__3518263_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517575_37);
+coraCall0(co, v__3517664_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517575_37);
+coraCall0(co, v__3517664_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517575_37);
+coraCall0(co, v__3517664_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517575_37);
+coraCall0(co, v__3517664_37);
 return;
 }
 }
@@ -7458,41 +7458,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517576_37 = makeNative(co->gc, 2, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v__3518155_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518155_37) {
-Obj v__3518156_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518157_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518156_37);
-if (True == v__3518157_37) {
-Obj v__3518158_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518159_37 = PRIM_ISCONS(v__3518158_37);
-if (True == v__3518159_37) {
-Obj v__3518160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518161_37 = PRIM_CAR(v__3518160_37);
-Obj v__3518162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518163_37 = PRIM_CDR(v__3518162_37);
-Obj v__3518164_37 = PRIM_EQ(Nil, v__3518163_37);
-if (True == v__3518164_37) {
+Obj v__3517665_37 = makeNative(co->gc, 2, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v__3518244_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518244_37) {
+Obj v__3518245_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518246_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518245_37);
+if (True == v__3518246_37) {
+Obj v__3518247_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518248_37 = PRIM_ISCONS(v__3518247_37);
+if (True == v__3518248_37) {
+Obj v__3518249_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518250_37 = PRIM_CAR(v__3518249_37);
+Obj v__3518251_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518252_37 = PRIM_CDR(v__3518251_37);
+Obj v__3518253_37 = PRIM_EQ(Nil, v__3518252_37);
+if (True == v__3518253_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3517665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3517665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3517665_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517576_37);
+coraCall0(co, v__3517665_37);
 return;
 }
 }
@@ -7503,50 +7503,50 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517577_37 = makeNative(co->gc, 1, clofun27, 0, 0);
-Obj v__3518145_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518145_37) {
-Obj v__3518146_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518147_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518146_37);
-if (True == v__3518147_37) {
-Obj v__3518148_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518149_37 = PRIM_ISCONS(v__3518148_37);
-if (True == v__3518149_37) {
-Obj v__3518150_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518151_37 = PRIM_CAR(v__3518150_37);
-Obj v__3517578_37 = v__3518151_37;
-Obj v__3518152_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518153_37 = PRIM_CDR(v__3518152_37);
-R[1] = v__3517577_37;
+Obj v__3517666_37 = makeNative(co->gc, 1, clofun27, 0, 0);
+Obj v__3518234_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518234_37) {
+Obj v__3518235_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518236_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518235_37);
+if (True == v__3518236_37) {
+Obj v__3518237_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518238_37 = PRIM_ISCONS(v__3518237_37);
+if (True == v__3518238_37) {
+Obj v__3518239_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518240_37 = PRIM_CAR(v__3518239_37);
+Obj v__3517667_37 = v__3518240_37;
+Obj v__3518241_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518242_37 = PRIM_CDR(v__3518241_37);
+R[1] = v__3517666_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517578_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517667_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517666_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517666_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518154_37= co->res;
-Obj v__3517577_37 = R[1];
-if (True == v__3518154_37) {
+Obj v__3518243_37= co->res;
+Obj v__3517666_37 = R[1];
+if (True == v__3518243_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517577_37);
+coraCall0(co, v__3517666_37);
 return;
 }
 }
@@ -7567,46 +7567,46 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517387_37 = R[1];
-Obj v__3517388_37 = R[2];
-Obj v__3518134_37 = PRIM_EQ(Nil, v__3517387_37);
-if (True == v__3518134_37) {
+Obj v__3517474_37 = R[1];
+Obj v__3517475_37 = R[2];
+Obj v__3518223_37 = PRIM_EQ(Nil, v__3517474_37);
+if (True == v__3518223_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517567_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3517387_37, v__3517388_37);
-Obj v__3518140_37 = PRIM_ISCONS(v__3517387_37);
-if (True == v__3518140_37) {
-Obj v__3518141_37 = PRIM_CAR(v__3517387_37);
-Obj v__3517570_37 = v__3518141_37;
-Obj v__3518142_37 = PRIM_CDR(v__3517387_37);
-Obj v__3517571_37 = v__3518142_37;
-R[1] = v__3517571_37;
-R[2] = v__3517388_37;
-R[3] = v__3517567_37;
+Obj v__3517656_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3517474_37, v__3517475_37);
+Obj v__3518229_37 = PRIM_ISCONS(v__3517474_37);
+if (True == v__3518229_37) {
+Obj v__3518230_37 = PRIM_CAR(v__3517474_37);
+Obj v__3517659_37 = v__3518230_37;
+Obj v__3518231_37 = PRIM_CDR(v__3517474_37);
+Obj v__3517660_37 = v__3518231_37;
+R[1] = v__3517660_37;
+R[2] = v__3517475_37;
+R[3] = v__3517656_37;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517570_37, v__3517388_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517659_37, v__3517475_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517567_37);
+coraCall0(co, v__3517656_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518143_37= co->res;
-Obj v__3517571_37 = R[1];
-Obj v__3517388_37 = R[2];
-Obj v__3517567_37 = R[3];
-if (True == v__3518143_37) {
+Obj v__3518232_37= co->res;
+Obj v__3517660_37 = R[1];
+Obj v__3517475_37 = R[2];
+Obj v__3517656_37 = R[3];
+if (True == v__3518232_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517571_37, v__3517388_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517660_37, v__3517475_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517567_37);
+coraCall0(co, v__3517656_37);
 return;
 }
 }
@@ -7617,15 +7617,15 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518135_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518135_37) {
-Obj v__3518136_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517568_37 = v__3518136_37;
-Obj v__3518137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517569_37 = v__3518137_37;
-R[1] = v__3517568_37;
+Obj v__3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518224_37) {
+Obj v__3518225_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517657_37 = v__3518225_37;
+Obj v__3518226_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517658_37 = v__3518226_37;
+R[1] = v__3517657_37;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517569_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517658_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7635,10 +7635,10 @@ return;
 }
 case 1:
 {
-Obj v__3518138_37= co->res;
-Obj v__3517568_37 = R[1];
-Obj v__3518139_37 = makeCons(co->gc, v__3517568_37, v__3518138_37);
-coraReturn(co, v__3518139_37);
+Obj v__3518227_37= co->res;
+Obj v__3517657_37 = R[1];
+Obj v__3518228_37 = makeCons(co->gc, v__3517657_37, v__3518227_37);
+coraReturn(co, v__3518228_37);
 return;
 }
 }
@@ -7648,46 +7648,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517382_37 = R[1];
-Obj v__3517383_37 = R[2];
-Obj v__3518123_37 = PRIM_EQ(Nil, v__3517382_37);
-if (True == v__3518123_37) {
-coraReturn(co, v__3517383_37);
+Obj v__3517469_37 = R[1];
+Obj v__3517470_37 = R[2];
+Obj v__3518212_37 = PRIM_EQ(Nil, v__3517469_37);
+if (True == v__3518212_37) {
+coraReturn(co, v__3517470_37);
 return;
 } else {
-Obj v__3517562_37 = makeNative(co->gc, 2, clofun23, 0, 2, v__3517382_37, v__3517383_37);
-Obj v__3518129_37 = PRIM_ISCONS(v__3517382_37);
-if (True == v__3518129_37) {
-Obj v__3518130_37 = PRIM_CAR(v__3517382_37);
-Obj v__3517565_37 = v__3518130_37;
-Obj v__3518131_37 = PRIM_CDR(v__3517382_37);
-Obj v__3517566_37 = v__3518131_37;
-R[1] = v__3517566_37;
-R[2] = v__3517383_37;
-R[3] = v__3517562_37;
+Obj v__3517651_37 = makeNative(co->gc, 2, clofun23, 0, 2, v__3517469_37, v__3517470_37);
+Obj v__3518218_37 = PRIM_ISCONS(v__3517469_37);
+if (True == v__3518218_37) {
+Obj v__3518219_37 = PRIM_CAR(v__3517469_37);
+Obj v__3517654_37 = v__3518219_37;
+Obj v__3518220_37 = PRIM_CDR(v__3517469_37);
+Obj v__3517655_37 = v__3518220_37;
+R[1] = v__3517655_37;
+R[2] = v__3517470_37;
+R[3] = v__3517651_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517565_37, v__3517383_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517654_37, v__3517470_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517562_37);
+coraCall0(co, v__3517651_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518132_37= co->res;
-Obj v__3517566_37 = R[1];
-Obj v__3517383_37 = R[2];
-Obj v__3517562_37 = R[3];
-if (True == v__3518132_37) {
+Obj v__3518221_37= co->res;
+Obj v__3517655_37 = R[1];
+Obj v__3517470_37 = R[2];
+Obj v__3517651_37 = R[3];
+if (True == v__3518221_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517566_37, v__3517383_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517655_37, v__3517470_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517562_37);
+coraCall0(co, v__3517651_37);
 return;
 }
 }
@@ -7698,15 +7698,15 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518124_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518124_37) {
-Obj v__3518125_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517563_37 = v__3518125_37;
-Obj v__3518126_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517564_37 = v__3518126_37;
-R[1] = v__3517563_37;
+Obj v__3518213_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518213_37) {
+Obj v__3518214_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517652_37 = v__3518214_37;
+Obj v__3518215_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517653_37 = v__3518215_37;
+R[1] = v__3517652_37;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517564_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517653_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7716,10 +7716,10 @@ return;
 }
 case 1:
 {
-Obj v__3518127_37= co->res;
-Obj v__3517563_37 = R[1];
-Obj v__3518128_37 = makeCons(co->gc, v__3517563_37, v__3518127_37);
-coraReturn(co, v__3518128_37);
+Obj v__3518216_37= co->res;
+Obj v__3517652_37 = R[1];
+Obj v__3518217_37 = makeCons(co->gc, v__3517652_37, v__3518216_37);
+coraReturn(co, v__3518217_37);
 return;
 }
 }
@@ -7729,66 +7729,66 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517368_37 = R[1];
-Obj v__3517369_37 = R[2];
-Obj v__3517370_37 = R[3];
-Obj v__3517527_37 = makeNative(co->gc, 2, clofun21, 1, 3, v__3517370_37, v__3517368_37, v__3517369_37);
-R[1] = v__3517370_37;
-R[2] = v__3517527_37;
+Obj v__3517455_37 = R[1];
+Obj v__3517456_37 = R[2];
+Obj v__3517457_37 = R[3];
+Obj v__3517616_37 = makeNative(co->gc, 2, clofun21, 1, 3, v__3517457_37, v__3517455_37, v__3517456_37);
+R[1] = v__3517457_37;
+R[2] = v__3517616_37;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517370_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517457_37);
 return;
 }
 case 1:
 {
-Obj v__3518121_37= co->res;
-Obj v__3517527_37 = R[1];
-if (True == v__3518121_37) {
+Obj v__3518210_37= co->res;
+Obj v__3517616_37 = R[1];
+if (True == v__3518210_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517527_37, True);
+coraCall1(co, v__3517616_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517527_37, False);
+coraCall1(co, v__3517616_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518120_37= co->res;
-Obj v__3517370_37 = R[1];
-Obj v__3517527_37 = R[2];
-if (True == v__3518120_37) {
+Obj v__3518209_37= co->res;
+Obj v__3517457_37 = R[1];
+Obj v__3517616_37 = R[2];
+if (True == v__3518209_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517527_37, True);
+coraCall1(co, v__3517616_37, True);
 return;
 } else {
-R[1] = v__3517527_37;
+R[1] = v__3517616_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517370_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517457_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3518118_37= co->res;
-Obj v__3517370_37 = R[1];
-Obj v__3517527_37 = R[2];
-if (True == v__3518118_37) {
+Obj v__3518207_37= co->res;
+Obj v__3517457_37 = R[1];
+Obj v__3517616_37 = R[2];
+if (True == v__3518207_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517527_37, True);
+coraCall1(co, v__3517616_37, True);
 return;
 } else {
-Obj v__3518119_37 = primIsString(v__3517370_37);
-if (True == v__3518119_37) {
+Obj v__3518208_37 = primIsString(v__3517457_37);
+if (True == v__3518208_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517527_37, True);
+coraCall1(co, v__3517616_37, True);
 return;
 } else {
-R[1] = v__3517370_37;
-R[2] = v__3517527_37;
+R[1] = v__3517457_37;
+R[2] = v__3517616_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3517370_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3517457_37);
 return;
 }
 }
@@ -7800,86 +7800,86 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517526_37 = R[1];
-if (True == v__3517526_37) {
-Obj v__3517908_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3517909_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517908_37);
-coraReturn(co, v__3517909_37);
-return;
-} else {
-Obj v__3517528_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518092_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518092_37) {
-Obj v__3518093_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518094_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518093_37);
-if (True == v__3518094_37) {
-Obj v__3518095_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518096_37 = PRIM_ISCONS(v__3518095_37);
-if (True == v__3518096_37) {
-Obj v__3518097_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518098_37 = PRIM_CAR(v__3518097_37);
-Obj v__3517561_37 = v__3518098_37;
-Obj v__3518099_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518100_37 = PRIM_CDR(v__3518099_37);
-Obj v__3518101_37 = PRIM_EQ(Nil, v__3518100_37);
-if (True == v__3518101_37) {
-Obj v__3518102_37 = primIsSymbol(v__3517561_37);
-if (True == v__3518102_37) {
-R[1] = v__3517561_37;
+Obj v__3517615_37 = R[1];
+if (True == v__3517615_37) {
+Obj v__3517997_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3517998_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517997_37);
+coraReturn(co, v__3517998_37);
+return;
+} else {
+Obj v__3517617_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518181_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518181_37) {
+Obj v__3518182_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518183_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518182_37);
+if (True == v__3518183_37) {
+Obj v__3518184_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518185_37 = PRIM_ISCONS(v__3518184_37);
+if (True == v__3518185_37) {
+Obj v__3518186_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518187_37 = PRIM_CAR(v__3518186_37);
+Obj v__3517650_37 = v__3518187_37;
+Obj v__3518188_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518189_37 = PRIM_CDR(v__3518188_37);
+Obj v__3518190_37 = PRIM_EQ(Nil, v__3518189_37);
+if (True == v__3518190_37) {
+Obj v__3518191_37 = primIsSymbol(v__3517650_37);
+if (True == v__3518191_37) {
+R[1] = v__3517650_37;
 saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517561_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517650_37, closureRef(R[0], 2));
 return;
 } else {
-Obj v__3518106_37 = PRIM_ISCONS(v__3517561_37);
-if (True == v__3518106_37) {
-Obj v__3518107_37 = PRIM_CAR(v__3517561_37);
-Obj v__3518108_37 = makeCons(co->gc, v__3518107_37, Nil);
-Obj v__3518109_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518108_37);
-Obj v__3518110_37 = PRIM_CDR(v__3517561_37);
-Obj v__3518111_37 = makeCons(co->gc, v__3518110_37, Nil);
-Obj v__3518112_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518111_37);
-Obj v__3518113_37 = makeCons(co->gc, v__3518112_37, Nil);
-Obj v__3518114_37 = makeCons(co->gc, v__3518109_37, v__3518113_37);
-Obj v__3518115_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3518114_37);
+Obj v__3518195_37 = PRIM_ISCONS(v__3517650_37);
+if (True == v__3518195_37) {
+Obj v__3518196_37 = PRIM_CAR(v__3517650_37);
+Obj v__3518197_37 = makeCons(co->gc, v__3518196_37, Nil);
+Obj v__3518198_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518197_37);
+Obj v__3518199_37 = PRIM_CDR(v__3517650_37);
+Obj v__3518200_37 = makeCons(co->gc, v__3518199_37, Nil);
+Obj v__3518201_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518200_37);
+Obj v__3518202_37 = makeCons(co->gc, v__3518201_37, Nil);
+Obj v__3518203_37 = makeCons(co->gc, v__3518198_37, v__3518202_37);
+Obj v__3518204_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3518203_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518115_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518204_37);
 return;
 } else {
-Obj v__3518116_37 = makeCons(co->gc, v__3517561_37, Nil);
-Obj v__3518117_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518116_37);
-coraReturn(co, v__3518117_37);
+Obj v__3518205_37 = makeCons(co->gc, v__3517650_37, Nil);
+Obj v__3518206_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518205_37);
+coraReturn(co, v__3518206_37);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517528_37);
+coraCall0(co, v__3517617_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518103_37= co->res;
-Obj v__3517561_37 = R[1];
-Obj v__3518104_37 = makeCons(co->gc, v__3517561_37, Nil);
-Obj v__3518105_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518104_37);
-coraReturn(co, v__3518105_37);
+Obj v__3518192_37= co->res;
+Obj v__3517650_37 = R[1];
+Obj v__3518193_37 = makeCons(co->gc, v__3517650_37, Nil);
+Obj v__3518194_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518193_37);
+coraReturn(co, v__3518194_37);
 return;
 }
 }
@@ -7889,85 +7889,85 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517910_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3517910_37) {
+Obj v__3517999_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3517999_37) {
 saveCont(co, clofun20, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517530_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518068_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518068_37) {
-Obj v__3518069_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518070_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518069_37);
-if (True == v__3518070_37) {
-Obj v__3518071_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518072_37 = PRIM_ISCONS(v__3518071_37);
-if (True == v__3518072_37) {
-Obj v__3518073_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518074_37 = PRIM_CAR(v__3518073_37);
-Obj v__3517559_37 = v__3518074_37;
-Obj v__3518075_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518076_37 = PRIM_CDR(v__3518075_37);
-Obj v__3518077_37 = PRIM_ISCONS(v__3518076_37);
-if (True == v__3518077_37) {
-Obj v__3518078_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
-Obj v__3518080_37 = PRIM_CAR(v__3518079_37);
-Obj v__3517560_37 = v__3518080_37;
-Obj v__3518081_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518082_37 = PRIM_CDR(v__3518081_37);
-Obj v__3518083_37 = PRIM_CDR(v__3518082_37);
-Obj v__3518084_37 = PRIM_EQ(Nil, v__3518083_37);
-if (True == v__3518084_37) {
-R[1] = v__3517560_37;
-R[2] = v__3517559_37;
+Obj v__3517619_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518157_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518157_37) {
+Obj v__3518158_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518159_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518158_37);
+if (True == v__3518159_37) {
+Obj v__3518160_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518161_37 = PRIM_ISCONS(v__3518160_37);
+if (True == v__3518161_37) {
+Obj v__3518162_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518163_37 = PRIM_CAR(v__3518162_37);
+Obj v__3517648_37 = v__3518163_37;
+Obj v__3518164_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518165_37 = PRIM_CDR(v__3518164_37);
+Obj v__3518166_37 = PRIM_ISCONS(v__3518165_37);
+if (True == v__3518166_37) {
+Obj v__3518167_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518168_37 = PRIM_CDR(v__3518167_37);
+Obj v__3518169_37 = PRIM_CAR(v__3518168_37);
+Obj v__3517649_37 = v__3518169_37;
+Obj v__3518170_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518171_37 = PRIM_CDR(v__3518170_37);
+Obj v__3518172_37 = PRIM_CDR(v__3518171_37);
+Obj v__3518173_37 = PRIM_EQ(Nil, v__3518172_37);
+if (True == v__3518173_37) {
+R[1] = v__3517649_37;
+R[2] = v__3517648_37;
 saveCont(co, clofun20, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), v__3517559_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), v__3517648_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517530_37);
+coraCall0(co, v__3517619_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3517914_37= co->res;
-Obj v__3517915_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3517916_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3517915_37);
-coraReturn(co, v__3517916_37);
+Obj v__3518003_37= co->res;
+Obj v__3518004_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3518005_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3518004_37);
+coraReturn(co, v__3518005_37);
 return;
 }
 case 2:
 {
-Obj v__3517911_37= co->res;
-Obj v__3517529_37 = v__3517911_37;
-Obj v__3517912_37 = PRIM_ISCONS(v__3517529_37);
-if (True == v__3517912_37) {
-Obj v__3517913_37 = PRIM_CDR(v__3517529_37);
-coraReturn(co, v__3517913_37);
+Obj v__3518000_37= co->res;
+Obj v__3517618_37 = v__3518000_37;
+Obj v__3518001_37 = PRIM_ISCONS(v__3517618_37);
+if (True == v__3518001_37) {
+Obj v__3518002_37 = PRIM_CDR(v__3517618_37);
+coraReturn(co, v__3518002_37);
 return;
 } else {
 saveCont(co, clofun20, 1, R);
@@ -7977,33 +7977,33 @@ return;
 }
 case 3:
 {
-Obj v__3518088_37= co->res;
-Obj v__3517559_37 = R[1];
-Obj v__3518089_37 = makeCons(co->gc, v__3518088_37, Nil);
-Obj v__3518090_37 = makeCons(co->gc, v__3517559_37, v__3518089_37);
-Obj v__3518091_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518090_37);
-coraReturn(co, v__3518091_37);
+Obj v__3518177_37= co->res;
+Obj v__3517648_37 = R[1];
+Obj v__3518178_37 = makeCons(co->gc, v__3518177_37, Nil);
+Obj v__3518179_37 = makeCons(co->gc, v__3517648_37, v__3518178_37);
+Obj v__3518180_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518179_37);
+coraReturn(co, v__3518180_37);
 return;
 }
 case 4:
 {
-Obj v__3518087_37= co->res;
-Obj v__3517560_37 = R[1];
-Obj v__3517559_37 = R[2];
-R[1] = v__3517559_37;
+Obj v__3518176_37= co->res;
+Obj v__3517649_37 = R[1];
+Obj v__3517648_37 = R[2];
+R[1] = v__3517648_37;
 saveCont(co, clofun20, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518087_37, closureRef(R[0], 2), v__3517560_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518176_37, closureRef(R[0], 2), v__3517649_37);
 return;
 }
 case 5:
 {
-Obj v__3518086_37= co->res;
-Obj v__3517560_37 = R[1];
-Obj v__3517559_37 = R[2];
-R[1] = v__3517560_37;
-R[2] = v__3517559_37;
+Obj v__3518175_37= co->res;
+Obj v__3517649_37 = R[1];
+Obj v__3517648_37 = R[2];
+R[1] = v__3517649_37;
+R[2] = v__3517648_37;
 saveCont(co, clofun20, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518086_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518175_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -8014,8 +8014,8 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v_x = R[1];
-Obj v__3518085_37 = makeCons(co->gc, v_x, v_x);
-coraReturn(co, v__3518085_37);
+Obj v__3518174_37 = makeCons(co->gc, v_x, v_x);
+coraReturn(co, v__3518174_37);
 return;
 }
 }
@@ -8025,74 +8025,74 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517531_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518036_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518036_37) {
-Obj v__3518037_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518038_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518037_37);
-if (True == v__3518038_37) {
-Obj v__3518039_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518040_37 = PRIM_ISCONS(v__3518039_37);
-if (True == v__3518040_37) {
-Obj v__3518041_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518042_37 = PRIM_CAR(v__3518041_37);
-Obj v__3518043_37 = PRIM_ISCONS(v__3518042_37);
-if (True == v__3518043_37) {
-Obj v__3518044_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518045_37 = PRIM_CAR(v__3518044_37);
-Obj v__3518046_37 = PRIM_CAR(v__3518045_37);
-Obj v__3518047_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518046_37);
-if (True == v__3518047_37) {
-Obj v__3518048_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518049_37 = PRIM_CAR(v__3518048_37);
-Obj v__3518050_37 = PRIM_CDR(v__3518049_37);
-Obj v__3517555_37 = v__3518050_37;
-Obj v__3518051_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518052_37 = PRIM_CDR(v__3518051_37);
-Obj v__3517556_37 = v__3518052_37;
-Obj v__3518053_37 = primGenSym(co);
-Obj v__3517557_37 = v__3518053_37;
-Obj v__3518054_37 = primGenSym(co);
-Obj v__3517558_37 = v__3518054_37;
-Obj v__3518055_37 = makeCons(co->gc, v__3517558_37, Nil);
-Obj v__3518056_37 = makeCons(co->gc, v__3517558_37, v__3517556_37);
-Obj v__3518057_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518056_37);
-Obj v__3518058_37 = makeCons(co->gc, v__3518057_37, Nil);
-Obj v__3518059_37 = makeCons(co->gc, v__3518055_37, v__3518058_37);
-Obj v__3518060_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518059_37);
-Obj v__3518061_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517555_37);
-Obj v__3518062_37 = makeCons(co->gc, v__3518061_37, Nil);
-Obj v__3518063_37 = makeCons(co->gc, v__3517557_37, v__3518062_37);
-Obj v__3518064_37 = makeCons(co->gc, v__3518063_37, Nil);
-Obj v__3518065_37 = makeCons(co->gc, v__3518060_37, v__3518064_37);
-Obj v__3518066_37 = makeCons(co->gc, v__3517557_37, v__3518065_37);
-Obj v__3518067_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518066_37);
+Obj v__3517620_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518125_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518125_37) {
+Obj v__3518126_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518127_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518126_37);
+if (True == v__3518127_37) {
+Obj v__3518128_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518129_37 = PRIM_ISCONS(v__3518128_37);
+if (True == v__3518129_37) {
+Obj v__3518130_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518131_37 = PRIM_CAR(v__3518130_37);
+Obj v__3518132_37 = PRIM_ISCONS(v__3518131_37);
+if (True == v__3518132_37) {
+Obj v__3518133_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518134_37 = PRIM_CAR(v__3518133_37);
+Obj v__3518135_37 = PRIM_CAR(v__3518134_37);
+Obj v__3518136_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518135_37);
+if (True == v__3518136_37) {
+Obj v__3518137_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518138_37 = PRIM_CAR(v__3518137_37);
+Obj v__3518139_37 = PRIM_CDR(v__3518138_37);
+Obj v__3517644_37 = v__3518139_37;
+Obj v__3518140_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518141_37 = PRIM_CDR(v__3518140_37);
+Obj v__3517645_37 = v__3518141_37;
+Obj v__3518142_37 = primGenSym(co);
+Obj v__3517646_37 = v__3518142_37;
+Obj v__3518143_37 = primGenSym(co);
+Obj v__3517647_37 = v__3518143_37;
+Obj v__3518144_37 = makeCons(co->gc, v__3517647_37, Nil);
+Obj v__3518145_37 = makeCons(co->gc, v__3517647_37, v__3517645_37);
+Obj v__3518146_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518145_37);
+Obj v__3518147_37 = makeCons(co->gc, v__3518146_37, Nil);
+Obj v__3518148_37 = makeCons(co->gc, v__3518144_37, v__3518147_37);
+Obj v__3518149_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518148_37);
+Obj v__3518150_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517644_37);
+Obj v__3518151_37 = makeCons(co->gc, v__3518150_37, Nil);
+Obj v__3518152_37 = makeCons(co->gc, v__3517646_37, v__3518151_37);
+Obj v__3518153_37 = makeCons(co->gc, v__3518152_37, Nil);
+Obj v__3518154_37 = makeCons(co->gc, v__3518149_37, v__3518153_37);
+Obj v__3518155_37 = makeCons(co->gc, v__3517646_37, v__3518154_37);
+Obj v__3518156_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518155_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518067_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518156_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517531_37);
+coraCall0(co, v__3517620_37);
 return;
 }
 }
@@ -8103,42 +8103,42 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517532_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518029_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518029_37) {
-Obj v__3518030_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518031_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518030_37);
-if (True == v__3518031_37) {
-Obj v__3518032_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517554_37 = v__3518032_37;
-R[1] = v__3517554_37;
+Obj v__3517621_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518118_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518118_37) {
+Obj v__3518119_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518120_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518119_37);
+if (True == v__3518120_37) {
+Obj v__3518121_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517643_37 = v__3518121_37;
+R[1] = v__3517643_37;
 saveCont(co, clofun17, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517532_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517532_37);
+coraCall0(co, v__3517621_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518034_37= co->res;
-Obj v__3518035_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518034_37);
-coraReturn(co, v__3518035_37);
+Obj v__3518123_37= co->res;
+Obj v__3518124_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518123_37);
+coraReturn(co, v__3518124_37);
 return;
 }
 case 2:
 {
-Obj v__3518033_37= co->res;
-Obj v__3517554_37 = R[1];
+Obj v__3518122_37= co->res;
+Obj v__3517643_37 = R[1];
 saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518033_37, v__3517554_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518122_37, v__3517643_37);
 return;
 }
 }
@@ -8148,78 +8148,78 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517533_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518007_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518007_37) {
-Obj v__3518008_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518009_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518008_37);
-if (True == v__3518009_37) {
-Obj v__3518010_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518011_37 = PRIM_ISCONS(v__3518010_37);
-if (True == v__3518011_37) {
-Obj v__3518012_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518013_37 = PRIM_CAR(v__3518012_37);
-Obj v__3517552_37 = v__3518013_37;
-Obj v__3518014_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518015_37 = PRIM_CDR(v__3518014_37);
-Obj v__3518016_37 = PRIM_ISCONS(v__3518015_37);
-if (True == v__3518016_37) {
-Obj v__3518017_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518018_37 = PRIM_CDR(v__3518017_37);
-Obj v__3518019_37 = PRIM_CAR(v__3518018_37);
-Obj v__3517553_37 = v__3518019_37;
-Obj v__3518020_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518021_37 = PRIM_CDR(v__3518020_37);
-Obj v__3518022_37 = PRIM_CDR(v__3518021_37);
-Obj v__3518023_37 = PRIM_EQ(Nil, v__3518022_37);
-if (True == v__3518023_37) {
-R[1] = v__3517553_37;
+Obj v__3517622_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518096_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518096_37) {
+Obj v__3518097_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518098_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518097_37);
+if (True == v__3518098_37) {
+Obj v__3518099_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518100_37 = PRIM_ISCONS(v__3518099_37);
+if (True == v__3518100_37) {
+Obj v__3518101_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518102_37 = PRIM_CAR(v__3518101_37);
+Obj v__3517641_37 = v__3518102_37;
+Obj v__3518103_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518104_37 = PRIM_CDR(v__3518103_37);
+Obj v__3518105_37 = PRIM_ISCONS(v__3518104_37);
+if (True == v__3518105_37) {
+Obj v__3518106_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518107_37 = PRIM_CDR(v__3518106_37);
+Obj v__3518108_37 = PRIM_CAR(v__3518107_37);
+Obj v__3517642_37 = v__3518108_37;
+Obj v__3518109_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518110_37 = PRIM_CDR(v__3518109_37);
+Obj v__3518111_37 = PRIM_CDR(v__3518110_37);
+Obj v__3518112_37 = PRIM_EQ(Nil, v__3518111_37);
+if (True == v__3518112_37) {
+R[1] = v__3517642_37;
 saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517552_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517641_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517533_37);
+coraCall0(co, v__3517622_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518025_37= co->res;
-Obj v__3518024_37 = R[1];
-Obj v__3518026_37 = makeCons(co->gc, v__3518025_37, Nil);
-Obj v__3518027_37 = makeCons(co->gc, v__3518024_37, v__3518026_37);
-Obj v__3518028_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518027_37);
-coraReturn(co, v__3518028_37);
+Obj v__3518114_37= co->res;
+Obj v__3518113_37 = R[1];
+Obj v__3518115_37 = makeCons(co->gc, v__3518114_37, Nil);
+Obj v__3518116_37 = makeCons(co->gc, v__3518113_37, v__3518115_37);
+Obj v__3518117_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518116_37);
+coraReturn(co, v__3518117_37);
 return;
 }
 case 2:
 {
-Obj v__3518024_37= co->res;
-Obj v__3517553_37 = R[1];
-R[1] = v__3518024_37;
+Obj v__3518113_37= co->res;
+Obj v__3517642_37 = R[1];
+R[1] = v__3518113_37;
 saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517553_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517642_37);
 return;
 }
 }
@@ -8229,105 +8229,105 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517534_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3517972_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517972_37) {
-Obj v__3517973_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517974_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3517973_37);
-if (True == v__3517974_37) {
-Obj v__3517975_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517976_37 = PRIM_ISCONS(v__3517975_37);
-if (True == v__3517976_37) {
-Obj v__3517977_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517978_37 = PRIM_CAR(v__3517977_37);
-Obj v__3517548_37 = v__3517978_37;
-Obj v__3517979_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517980_37 = PRIM_CDR(v__3517979_37);
-Obj v__3517981_37 = PRIM_ISCONS(v__3517980_37);
-if (True == v__3517981_37) {
-Obj v__3517982_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517983_37 = PRIM_CDR(v__3517982_37);
-Obj v__3517984_37 = PRIM_CAR(v__3517983_37);
-Obj v__3517549_37 = v__3517984_37;
-Obj v__3517985_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517986_37 = PRIM_CDR(v__3517985_37);
-Obj v__3517987_37 = PRIM_CDR(v__3517986_37);
-Obj v__3517988_37 = PRIM_ISCONS(v__3517987_37);
-if (True == v__3517988_37) {
-Obj v__3517989_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517990_37 = PRIM_CDR(v__3517989_37);
-Obj v__3517991_37 = PRIM_CDR(v__3517990_37);
-Obj v__3517992_37 = PRIM_CAR(v__3517991_37);
-Obj v__3517550_37 = v__3517992_37;
-Obj v__3517993_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517994_37 = PRIM_CDR(v__3517993_37);
-Obj v__3517995_37 = PRIM_CDR(v__3517994_37);
-Obj v__3517996_37 = PRIM_CDR(v__3517995_37);
-Obj v__3517997_37 = PRIM_EQ(Nil, v__3517996_37);
-if (True == v__3517997_37) {
-Obj v__3517998_37 = primGenSym(co);
-Obj v__3517551_37 = v__3517998_37;
-R[1] = v__3517548_37;
-R[2] = v__3517550_37;
-R[3] = v__3517551_37;
+Obj v__3517623_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3518061_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518061_37) {
+Obj v__3518062_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518063_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518062_37);
+if (True == v__3518063_37) {
+Obj v__3518064_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518065_37 = PRIM_ISCONS(v__3518064_37);
+if (True == v__3518065_37) {
+Obj v__3518066_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518067_37 = PRIM_CAR(v__3518066_37);
+Obj v__3517637_37 = v__3518067_37;
+Obj v__3518068_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518069_37 = PRIM_CDR(v__3518068_37);
+Obj v__3518070_37 = PRIM_ISCONS(v__3518069_37);
+if (True == v__3518070_37) {
+Obj v__3518071_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518072_37 = PRIM_CDR(v__3518071_37);
+Obj v__3518073_37 = PRIM_CAR(v__3518072_37);
+Obj v__3517638_37 = v__3518073_37;
+Obj v__3518074_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518075_37 = PRIM_CDR(v__3518074_37);
+Obj v__3518076_37 = PRIM_CDR(v__3518075_37);
+Obj v__3518077_37 = PRIM_ISCONS(v__3518076_37);
+if (True == v__3518077_37) {
+Obj v__3518078_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
+Obj v__3518080_37 = PRIM_CDR(v__3518079_37);
+Obj v__3518081_37 = PRIM_CAR(v__3518080_37);
+Obj v__3517639_37 = v__3518081_37;
+Obj v__3518082_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518083_37 = PRIM_CDR(v__3518082_37);
+Obj v__3518084_37 = PRIM_CDR(v__3518083_37);
+Obj v__3518085_37 = PRIM_CDR(v__3518084_37);
+Obj v__3518086_37 = PRIM_EQ(Nil, v__3518085_37);
+if (True == v__3518086_37) {
+Obj v__3518087_37 = primGenSym(co);
+Obj v__3517640_37 = v__3518087_37;
+R[1] = v__3517637_37;
+R[2] = v__3517639_37;
+R[3] = v__3517640_37;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517549_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517638_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517534_37);
+coraCall0(co, v__3517623_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518002_37= co->res;
-Obj v__3517999_37 = R[1];
-Obj v__3517551_37 = R[2];
-Obj v__3518003_37 = makeCons(co->gc, v__3518002_37, Nil);
-Obj v__3518004_37 = makeCons(co->gc, v__3517999_37, v__3518003_37);
-Obj v__3518005_37 = makeCons(co->gc, v__3517551_37, v__3518004_37);
-Obj v__3518006_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518005_37);
-coraReturn(co, v__3518006_37);
+Obj v__3518091_37= co->res;
+Obj v__3518088_37 = R[1];
+Obj v__3517640_37 = R[2];
+Obj v__3518092_37 = makeCons(co->gc, v__3518091_37, Nil);
+Obj v__3518093_37 = makeCons(co->gc, v__3518088_37, v__3518092_37);
+Obj v__3518094_37 = makeCons(co->gc, v__3517640_37, v__3518093_37);
+Obj v__3518095_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518094_37);
+coraReturn(co, v__3518095_37);
 return;
 }
 case 2:
 {
-Obj v__3517999_37= co->res;
-Obj v__3517548_37 = R[1];
-Obj v__3517550_37 = R[2];
-Obj v__3517551_37 = R[3];
-Obj v__3518000_37 = makeCons(co->gc, v__3517548_37, v__3517551_37);
-Obj v__3518001_37 = makeCons(co->gc, v__3518000_37, closureRef(R[0], 1));
-R[1] = v__3517999_37;
-R[2] = v__3517551_37;
+Obj v__3518088_37= co->res;
+Obj v__3517637_37 = R[1];
+Obj v__3517639_37 = R[2];
+Obj v__3517640_37 = R[3];
+Obj v__3518089_37 = makeCons(co->gc, v__3517637_37, v__3517640_37);
+Obj v__3518090_37 = makeCons(co->gc, v__3518089_37, closureRef(R[0], 1));
+R[1] = v__3518088_37;
+R[2] = v__3517640_37;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518001_37, closureRef(R[0], 2), v__3517550_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518090_37, closureRef(R[0], 2), v__3517639_37);
 return;
 }
 }
@@ -8337,85 +8337,85 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517535_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
-Obj v__3517940_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517940_37) {
-Obj v__3517941_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517942_37 = PRIM_ISCONS(v__3517941_37);
-if (True == v__3517942_37) {
-Obj v__3517943_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517944_37 = PRIM_CAR(v__3517943_37);
-Obj v__3517945_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3517944_37);
-if (True == v__3517945_37) {
-Obj v__3517946_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517947_37 = PRIM_CDR(v__3517946_37);
-Obj v__3517545_37 = v__3517947_37;
-Obj v__3517948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517949_37 = PRIM_ISCONS(v__3517948_37);
-if (True == v__3517949_37) {
-Obj v__3517950_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517951_37 = PRIM_CAR(v__3517950_37);
-Obj v__3517952_37 = PRIM_ISCONS(v__3517951_37);
-if (True == v__3517952_37) {
-Obj v__3517953_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517954_37 = PRIM_CAR(v__3517953_37);
-Obj v__3517955_37 = PRIM_CAR(v__3517954_37);
-Obj v__3517956_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3517955_37);
-if (True == v__3517956_37) {
-Obj v__3517957_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517958_37 = PRIM_CAR(v__3517957_37);
-Obj v__3517959_37 = PRIM_CDR(v__3517958_37);
-Obj v__3517546_37 = v__3517959_37;
-Obj v__3517960_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517961_37 = PRIM_CDR(v__3517960_37);
-Obj v__3517962_37 = PRIM_EQ(Nil, v__3517961_37);
-if (True == v__3517962_37) {
-Obj v__3517963_37 = primGenSym(co);
-Obj v__3517547_37 = v__3517963_37;
-Obj v__3517964_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517545_37);
-Obj v__3517965_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517546_37);
-Obj v__3517966_37 = makeCons(co->gc, v__3517965_37, Nil);
-Obj v__3517967_37 = makeCons(co->gc, v__3517547_37, v__3517966_37);
-Obj v__3517968_37 = makeCons(co->gc, v__3517967_37, Nil);
-Obj v__3517969_37 = makeCons(co->gc, v__3517964_37, v__3517968_37);
-Obj v__3517970_37 = makeCons(co->gc, v__3517547_37, v__3517969_37);
-Obj v__3517971_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3517970_37);
+Obj v__3517624_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj v__3518029_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518029_37) {
+Obj v__3518030_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518031_37 = PRIM_ISCONS(v__3518030_37);
+if (True == v__3518031_37) {
+Obj v__3518032_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518033_37 = PRIM_CAR(v__3518032_37);
+Obj v__3518034_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518033_37);
+if (True == v__3518034_37) {
+Obj v__3518035_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3518036_37 = PRIM_CDR(v__3518035_37);
+Obj v__3517634_37 = v__3518036_37;
+Obj v__3518037_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518038_37 = PRIM_ISCONS(v__3518037_37);
+if (True == v__3518038_37) {
+Obj v__3518039_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518040_37 = PRIM_CAR(v__3518039_37);
+Obj v__3518041_37 = PRIM_ISCONS(v__3518040_37);
+if (True == v__3518041_37) {
+Obj v__3518042_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518043_37 = PRIM_CAR(v__3518042_37);
+Obj v__3518044_37 = PRIM_CAR(v__3518043_37);
+Obj v__3518045_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518044_37);
+if (True == v__3518045_37) {
+Obj v__3518046_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518047_37 = PRIM_CAR(v__3518046_37);
+Obj v__3518048_37 = PRIM_CDR(v__3518047_37);
+Obj v__3517635_37 = v__3518048_37;
+Obj v__3518049_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3518050_37 = PRIM_CDR(v__3518049_37);
+Obj v__3518051_37 = PRIM_EQ(Nil, v__3518050_37);
+if (True == v__3518051_37) {
+Obj v__3518052_37 = primGenSym(co);
+Obj v__3517636_37 = v__3518052_37;
+Obj v__3518053_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517634_37);
+Obj v__3518054_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517635_37);
+Obj v__3518055_37 = makeCons(co->gc, v__3518054_37, Nil);
+Obj v__3518056_37 = makeCons(co->gc, v__3517636_37, v__3518055_37);
+Obj v__3518057_37 = makeCons(co->gc, v__3518056_37, Nil);
+Obj v__3518058_37 = makeCons(co->gc, v__3518053_37, v__3518057_37);
+Obj v__3518059_37 = makeCons(co->gc, v__3517636_37, v__3518058_37);
+Obj v__3518060_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518059_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517971_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518060_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517535_37);
+coraCall0(co, v__3517624_37);
 return;
 }
 }
@@ -8426,61 +8426,61 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517536_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3517918_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517918_37) {
-Obj v__3517919_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517537_37 = v__3517919_37;
-Obj v__3517920_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517538_37 = v__3517920_37;
-Obj v__3517541_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3517537_37, v__3517538_37, v__3517536_37);
-R[1] = v__3517537_37;
-R[2] = v__3517541_37;
+Obj v__3517625_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3518007_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3518007_37) {
+Obj v__3518008_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517626_37 = v__3518008_37;
+Obj v__3518009_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517627_37 = v__3518009_37;
+Obj v__3517630_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3517626_37, v__3517627_37, v__3517625_37);
+R[1] = v__3517626_37;
+R[2] = v__3517630_37;
 saveCont(co, clofun13, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517537_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517626_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517536_37);
+coraCall0(co, v__3517625_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3517939_37= co->res;
-Obj v__3517541_37 = R[1];
-if (True == v__3517939_37) {
+Obj v__3518028_37= co->res;
+Obj v__3517630_37 = R[1];
+if (True == v__3518028_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517541_37, True);
+coraCall1(co, v__3517630_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517541_37, False);
+coraCall1(co, v__3517630_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3517938_37= co->res;
-Obj v__3517541_37 = R[1];
-R[1] = v__3517541_37;
+Obj v__3518027_37= co->res;
+Obj v__3517630_37 = R[1];
+R[1] = v__3517630_37;
 saveCont(co, clofun13, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517938_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3518027_37);
 return;
 }
 case 3:
 {
-Obj v__3517937_37= co->res;
-Obj v__3517537_37 = R[1];
-Obj v__3517541_37 = R[2];
-if (True == v__3517937_37) {
-R[1] = v__3517541_37;
+Obj v__3518026_37= co->res;
+Obj v__3517626_37 = R[1];
+Obj v__3517630_37 = R[2];
+if (True == v__3518026_37) {
+R[1] = v__3517630_37;
 saveCont(co, clofun13, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3517537_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3517626_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517541_37, False);
+coraCall1(co, v__3517630_37, False);
 return;
 }
 }
@@ -8491,8 +8491,8 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517540_37 = R[1];
-if (True == v__3517540_37) {
+Obj v__3517629_37 = R[1];
+if (True == v__3517629_37) {
 saveCont(co, clofun12, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
@@ -8504,61 +8504,61 @@ return;
 }
 case 1:
 {
-Obj v__3517927_37= co->res;
-Obj v__3517925_37 = R[1];
-Obj v__3517928_37 = makeCons(co->gc, v__3517925_37, v__3517927_37);
-coraReturn(co, v__3517928_37);
+Obj v__3518016_37= co->res;
+Obj v__3518014_37 = R[1];
+Obj v__3518017_37 = makeCons(co->gc, v__3518014_37, v__3518016_37);
+coraReturn(co, v__3518017_37);
 return;
 }
 case 2:
 {
-Obj v__3517926_37= co->res;
-Obj v__3517925_37 = R[1];
-R[1] = v__3517925_37;
+Obj v__3518015_37= co->res;
+Obj v__3518014_37 = R[1];
+R[1] = v__3518014_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517926_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518015_37, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v__3517933_37= co->res;
-Obj v__3517544_37 = R[1];
-Obj v__3517934_37 = makeCons(co->gc, v__3517933_37, Nil);
-Obj v__3517935_37 = makeCons(co->gc, v__3517544_37, v__3517934_37);
-Obj v__3517936_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517935_37);
+Obj v__3518022_37= co->res;
+Obj v__3517633_37 = R[1];
+Obj v__3518023_37 = makeCons(co->gc, v__3518022_37, Nil);
+Obj v__3518024_37 = makeCons(co->gc, v__3517633_37, v__3518023_37);
+Obj v__3518025_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518024_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), v__3517936_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), v__3518025_37);
 return;
 }
 case 4:
 {
-Obj v__3517931_37= co->res;
-Obj v__3517544_37 = v__3517931_37;
-Obj v__3517932_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
-R[1] = v__3517544_37;
+Obj v__3518020_37= co->res;
+Obj v__3517633_37 = v__3518020_37;
+Obj v__3518021_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
+R[1] = v__3517633_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3517932_37, v__3517544_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518021_37, v__3517633_37);
 return;
 }
 case 5:
 {
-Obj v__3517922_37= co->res;
-Obj v__3517542_37 = R[1];
-Obj v__3517543_37 = v__3517922_37;
-Obj v__3517923_37 = PRIM_EQ(v__3517542_37, v__3517543_37);
-if (True == v__3517923_37) {
-Obj v__3517924_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3517925_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3517924_37);
-R[1] = v__3517925_37;
+Obj v__3518011_37= co->res;
+Obj v__3517631_37 = R[1];
+Obj v__3517632_37 = v__3518011_37;
+Obj v__3518012_37 = PRIM_EQ(v__3517631_37, v__3517632_37);
+if (True == v__3518012_37) {
+Obj v__3518013_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3518014_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518013_37);
+R[1] = v__3518014_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517929_37 = PRIM_GT(v__3517542_37, v__3517543_37);
-if (True == v__3517929_37) {
-Obj v__3517930_37 = PRIM_SUB(v__3517542_37, v__3517543_37);
+Obj v__3518018_37 = PRIM_GT(v__3517631_37, v__3517632_37);
+if (True == v__3518018_37) {
+Obj v__3518019_37 = PRIM_SUB(v__3517631_37, v__3517632_37);
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517930_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3518019_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8569,9 +8569,9 @@ return;
 }
 case 6:
 {
-Obj v__3517921_37= co->res;
-Obj v__3517542_37 = v__3517921_37;
-R[1] = v__3517542_37;
+Obj v__3518010_37= co->res;
+Obj v__3517631_37 = v__3518010_37;
+R[1] = v__3517631_37;
 saveCont(co, clofun12, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), closureRef(R[0], 3));
 return;
@@ -8589,9 +8589,9 @@ return;
 }
 case 1:
 {
-Obj v__3517917_37= co->res;
+Obj v__3518006_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3517917_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518006_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8601,18 +8601,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517364_37 = R[1];
-Obj v__3517365_37 = R[2];
-Obj v__3517903_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517364_37);
-if (True == v__3517903_37) {
-coraReturn(co, v__3517365_37);
+Obj v__3517451_37 = R[1];
+Obj v__3517452_37 = R[2];
+Obj v__3517992_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517451_37);
+if (True == v__3517992_37) {
+coraReturn(co, v__3517452_37);
 return;
 } else {
-Obj v__3517904_37 = PRIM_SUB(v__3517364_37, MAKE_NUMBER(1));
-Obj v__3517905_37 = primGenSym(co);
-Obj v__3517906_37 = makeCons(co->gc, v__3517905_37, v__3517365_37);
+Obj v__3517993_37 = PRIM_SUB(v__3517451_37, MAKE_NUMBER(1));
+Obj v__3517994_37 = primGenSym(co);
+Obj v__3517995_37 = makeCons(co->gc, v__3517994_37, v__3517452_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517904_37, v__3517906_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517993_37, v__3517995_37);
 return;
 }
 }
@@ -8630,24 +8630,24 @@ return;
 }
 case 1:
 {
-Obj v__3517901_37= co->res;
-Obj v__3517524_37 = R[1];
-if (True == v__3517901_37) {
+Obj v__3517990_37= co->res;
+Obj v__3517613_37 = R[1];
+if (True == v__3517990_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517524_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517613_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517900_37= co->res;
-Obj v__3517524_37 = v__3517900_37;
-R[1] = v__3517524_37;
+Obj v__3517989_37= co->res;
+Obj v__3517613_37 = v__3517989_37;
+R[1] = v__3517613_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517524_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517613_37);
 return;
 }
 }
@@ -8664,24 +8664,24 @@ return;
 }
 case 1:
 {
-Obj v__3517898_37= co->res;
-Obj v__3517523_37 = R[1];
-if (True == v__3517898_37) {
+Obj v__3517987_37= co->res;
+Obj v__3517612_37 = R[1];
+if (True == v__3517987_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517523_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517612_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517897_37= co->res;
-Obj v__3517523_37 = v__3517897_37;
-R[1] = v__3517523_37;
+Obj v__3517986_37= co->res;
+Obj v__3517612_37 = v__3517986_37;
+R[1] = v__3517612_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517523_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517612_37);
 return;
 }
 }
@@ -8698,16 +8698,16 @@ return;
 }
 case 1:
 {
-Obj v__3517894_37= co->res;
-Obj v__3517895_37 = primNot(v__3517894_37);
-coraReturn(co, v__3517895_37);
+Obj v__3517983_37= co->res;
+Obj v__3517984_37 = primNot(v__3517983_37);
+coraReturn(co, v__3517984_37);
 return;
 }
 case 2:
 {
-Obj v__3517893_37= co->res;
+Obj v__3517982_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517893_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517982_37);
 return;
 }
 }
@@ -8717,23 +8717,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517360_37 = R[1];
-Obj v__3517361_37 = R[2];
-Obj v__3517817_37 = PRIM_EQ(Nil, v__3517361_37);
-if (True == v__3517817_37) {
+Obj v__3517447_37 = R[1];
+Obj v__3517448_37 = R[2];
+Obj v__3517906_37 = PRIM_EQ(Nil, v__3517448_37);
+if (True == v__3517906_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3517818_37 = PRIM_ISCONS(v__3517361_37);
-if (True == v__3517818_37) {
-Obj v__3517819_37 = PRIM_CAR(v__3517361_37);
-Obj v__3517521_37 = v__3517819_37;
-Obj v__3517820_37 = PRIM_CDR(v__3517361_37);
-Obj v__3517522_37 = v__3517820_37;
-R[1] = v__3517360_37;
-R[2] = v__3517522_37;
+Obj v__3517907_37 = PRIM_ISCONS(v__3517448_37);
+if (True == v__3517907_37) {
+Obj v__3517908_37 = PRIM_CAR(v__3517448_37);
+Obj v__3517610_37 = v__3517908_37;
+Obj v__3517909_37 = PRIM_CDR(v__3517448_37);
+Obj v__3517611_37 = v__3517909_37;
+R[1] = v__3517447_37;
+R[2] = v__3517611_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517360_37, v__3517521_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517447_37, v__3517610_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8744,13 +8744,13 @@ return;
 }
 case 1:
 {
-Obj v__3517821_37= co->res;
-Obj v__3517360_37 = R[1];
-Obj v__3517522_37 = R[2];
-Obj v__3517822_37 = PRIM_LT(v__3517821_37, MAKE_NUMBER(0));
-if (True == v__3517822_37) {
+Obj v__3517910_37= co->res;
+Obj v__3517447_37 = R[1];
+Obj v__3517611_37 = R[2];
+Obj v__3517911_37 = PRIM_LT(v__3517910_37, MAKE_NUMBER(0));
+if (True == v__3517911_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3517360_37, v__3517522_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3517447_37, v__3517611_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8777,32 +8777,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517354_37 = R[1];
-Obj v__3517355_37 = R[2];
-Obj v__3517356_37 = R[3];
-Obj v__3517806_37 = PRIM_EQ(Nil, v__3517356_37);
-if (True == v__3517806_37) {
+Obj v__3517441_37 = R[1];
+Obj v__3517442_37 = R[2];
+Obj v__3517443_37 = R[3];
+Obj v__3517895_37 = PRIM_EQ(Nil, v__3517443_37);
+if (True == v__3517895_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3517518_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517356_37, v__3517354_37, v__3517355_37);
-Obj v__3517811_37 = PRIM_ISCONS(v__3517356_37);
-if (True == v__3517811_37) {
-Obj v__3517812_37 = PRIM_CAR(v__3517356_37);
-Obj v__3517520_37 = v__3517812_37;
-Obj v__3517813_37 = PRIM_CDR(v__3517356_37);
-Obj v__3517814_37 = PRIM_EQ(v__3517355_37, v__3517520_37);
-if (True == v__3517814_37) {
-coraReturn(co, v__3517354_37);
+Obj v__3517607_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517443_37, v__3517441_37, v__3517442_37);
+Obj v__3517900_37 = PRIM_ISCONS(v__3517443_37);
+if (True == v__3517900_37) {
+Obj v__3517901_37 = PRIM_CAR(v__3517443_37);
+Obj v__3517609_37 = v__3517901_37;
+Obj v__3517902_37 = PRIM_CDR(v__3517443_37);
+Obj v__3517903_37 = PRIM_EQ(v__3517442_37, v__3517609_37);
+if (True == v__3517903_37) {
+coraReturn(co, v__3517441_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517607_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517518_37);
+coraCall0(co, v__3517607_37);
 return;
 }
 }
@@ -8814,14 +8814,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517807_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517807_37) {
-Obj v__3517808_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517809_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517519_37 = v__3517809_37;
-Obj v__3517810_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3517896_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517896_37) {
+Obj v__3517897_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517898_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517608_37 = v__3517898_37;
+Obj v__3517899_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3517810_37, closureRef(R[0], 2), v__3517519_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3517899_37, closureRef(R[0], 2), v__3517608_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8836,24 +8836,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517349_37 = R[1];
-Obj v__3517350_37 = R[2];
-Obj v__3517351_37 = R[3];
-Obj v__3517800_37 = PRIM_EQ(Nil, v__3517351_37);
-if (True == v__3517800_37) {
-coraReturn(co, v__3517350_37);
+Obj v__3517436_37 = R[1];
+Obj v__3517437_37 = R[2];
+Obj v__3517438_37 = R[3];
+Obj v__3517889_37 = PRIM_EQ(Nil, v__3517438_37);
+if (True == v__3517889_37) {
+coraReturn(co, v__3517437_37);
 return;
 } else {
-Obj v__3517801_37 = PRIM_ISCONS(v__3517351_37);
-if (True == v__3517801_37) {
-Obj v__3517802_37 = PRIM_CAR(v__3517351_37);
-Obj v__3517516_37 = v__3517802_37;
-Obj v__3517803_37 = PRIM_CDR(v__3517351_37);
-Obj v__3517517_37 = v__3517803_37;
-R[1] = v__3517349_37;
-R[2] = v__3517517_37;
+Obj v__3517890_37 = PRIM_ISCONS(v__3517438_37);
+if (True == v__3517890_37) {
+Obj v__3517891_37 = PRIM_CAR(v__3517438_37);
+Obj v__3517605_37 = v__3517891_37;
+Obj v__3517892_37 = PRIM_CDR(v__3517438_37);
+Obj v__3517606_37 = v__3517892_37;
+R[1] = v__3517436_37;
+R[2] = v__3517606_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3517349_37, v__3517350_37, v__3517516_37);
+coraCall2(co, v__3517436_37, v__3517437_37, v__3517605_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8864,11 +8864,11 @@ return;
 }
 case 1:
 {
-Obj v__3517804_37= co->res;
-Obj v__3517349_37 = R[1];
-Obj v__3517517_37 = R[2];
+Obj v__3517893_37= co->res;
+Obj v__3517436_37 = R[1];
+Obj v__3517606_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3517349_37, v__3517804_37, v__3517517_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3517436_37, v__3517893_37, v__3517606_37);
 return;
 }
 }
@@ -8878,44 +8878,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517344_37 = R[1];
-Obj v__3517345_37 = R[2];
-Obj v__3517785_37 = PRIM_EQ(Nil, v__3517345_37);
-if (True == v__3517785_37) {
+Obj v__3517431_37 = R[1];
+Obj v__3517432_37 = R[2];
+Obj v__3517874_37 = PRIM_EQ(Nil, v__3517432_37);
+if (True == v__3517874_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517512_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517345_37, v__3517344_37);
-Obj v__3517789_37 = PRIM_ISCONS(v__3517345_37);
-if (True == v__3517789_37) {
-Obj v__3517790_37 = PRIM_CAR(v__3517345_37);
-Obj v__3517791_37 = PRIM_ISCONS(v__3517790_37);
-if (True == v__3517791_37) {
-Obj v__3517792_37 = PRIM_CAR(v__3517345_37);
-Obj v__3517793_37 = PRIM_CAR(v__3517792_37);
-Obj v__3517514_37 = v__3517793_37;
-Obj v__3517794_37 = PRIM_CAR(v__3517345_37);
-Obj v__3517795_37 = PRIM_CDR(v__3517794_37);
-Obj v__3517515_37 = v__3517795_37;
-Obj v__3517796_37 = PRIM_CDR(v__3517345_37);
-Obj v__3517797_37 = PRIM_EQ(v__3517344_37, v__3517514_37);
-if (True == v__3517797_37) {
-Obj v__3517798_37 = makeCons(co->gc, v__3517514_37, v__3517515_37);
-coraReturn(co, v__3517798_37);
+Obj v__3517601_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517432_37, v__3517431_37);
+Obj v__3517878_37 = PRIM_ISCONS(v__3517432_37);
+if (True == v__3517878_37) {
+Obj v__3517879_37 = PRIM_CAR(v__3517432_37);
+Obj v__3517880_37 = PRIM_ISCONS(v__3517879_37);
+if (True == v__3517880_37) {
+Obj v__3517881_37 = PRIM_CAR(v__3517432_37);
+Obj v__3517882_37 = PRIM_CAR(v__3517881_37);
+Obj v__3517603_37 = v__3517882_37;
+Obj v__3517883_37 = PRIM_CAR(v__3517432_37);
+Obj v__3517884_37 = PRIM_CDR(v__3517883_37);
+Obj v__3517604_37 = v__3517884_37;
+Obj v__3517885_37 = PRIM_CDR(v__3517432_37);
+Obj v__3517886_37 = PRIM_EQ(v__3517431_37, v__3517603_37);
+if (True == v__3517886_37) {
+Obj v__3517887_37 = makeCons(co->gc, v__3517603_37, v__3517604_37);
+coraReturn(co, v__3517887_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517512_37);
+coraCall0(co, v__3517601_37);
 return;
 }
 }
@@ -8927,13 +8927,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517786_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517786_37) {
-Obj v__3517787_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517788_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517513_37 = v__3517788_37;
+Obj v__3517875_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3517875_37) {
+Obj v__3517876_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3517877_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3517602_37 = v__3517877_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3517513_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3517602_37);
 return;
 } else {
 co->ctx.sp = R;
-- 
2.43.0


From 3891fa0b27029c337f61a3b8dc18d41bec47b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 21/90] fix: keep the partial evaluator from capturing
 variables and dropping effects

Inlining under a binder captured free variables, an alias of a global was
replaced by a later read of that global, and folding (car (cons x y)) threw
away the effects of y.
---
 init.c         | 3808 +++++++++++-----------
 lib/peval.cora |   50 +-
 lib/toc.c      | 8268 ++++++++++++++++++++++++------------------------
 3 files changed, 6074 insertions(+), 6052 deletions(-)

diff --git a/init.c b/init.c
index 6b65bfa..b339db2 100644
--- a/init.c
+++ b/init.c
@@ -281,316 +281,316 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513217_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3513220_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3513223_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3513226_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3513229_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3513233_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3513238_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3513242_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3513250_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3513252_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3513257_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3514747_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3514750_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3514753_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3514756_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3514759_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3514763_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3514768_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3514772_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3514780_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3514782_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3514787_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun100, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3513744_37= co->res;
-Obj v__3513750_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
-Obj v__3513762_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
-Obj v__3513763_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3513764_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513763_37);
-Obj v__3513765_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513764_37);
-Obj v__3513766_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3513767_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513766_37);
-Obj v__3513768_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513767_37);
-Obj v__3513769_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3513770_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513769_37);
-Obj v__3513771_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513770_37);
-Obj v__3513772_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3513773_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513772_37);
-Obj v__3513774_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513773_37);
-Obj v__3513775_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3513776_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513775_37);
-Obj v__3513777_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3513776_37);
-Obj v__3513778_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3513779_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513778_37);
-Obj v__3513780_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3513779_37);
-Obj v__3513781_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3513782_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513781_37);
-Obj v__3513783_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3513782_37);
-Obj v__3513784_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3513785_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513784_37);
-Obj v__3513786_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3513785_37);
-Obj v__3513787_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3513788_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513787_37);
-Obj v__3513789_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3513788_37);
-Obj v__3513790_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3513791_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513790_37);
-Obj v__3513792_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513791_37);
-Obj v__3513793_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3513794_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513793_37);
-Obj v__3513795_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3513794_37);
-Obj v__3513796_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3513797_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3513796_37);
-Obj v__3513798_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3513797_37);
-Obj v__3513799_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3513800_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3513799_37);
-Obj v__3513801_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3513800_37);
-Obj v__3513802_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3513803_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513802_37);
-Obj v__3513804_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3513803_37);
-Obj v__3513805_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3513806_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513805_37);
-Obj v__3513807_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3513806_37);
-Obj v__3513808_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3513809_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513808_37);
-Obj v__3513810_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3513809_37);
-Obj v__3513811_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3513812_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3513811_37);
-Obj v__3513813_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3513812_37);
-Obj v__3513814_37 = makeCons(co->gc, v__3513813_37, Nil);
-Obj v__3513815_37 = makeCons(co->gc, v__3513810_37, v__3513814_37);
-Obj v__3513816_37 = makeCons(co->gc, v__3513807_37, v__3513815_37);
-Obj v__3513817_37 = makeCons(co->gc, v__3513804_37, v__3513816_37);
-Obj v__3513818_37 = makeCons(co->gc, v__3513801_37, v__3513817_37);
-Obj v__3513819_37 = makeCons(co->gc, v__3513798_37, v__3513818_37);
-Obj v__3513820_37 = makeCons(co->gc, v__3513795_37, v__3513819_37);
-Obj v__3513821_37 = makeCons(co->gc, v__3513792_37, v__3513820_37);
-Obj v__3513822_37 = makeCons(co->gc, v__3513789_37, v__3513821_37);
-Obj v__3513823_37 = makeCons(co->gc, v__3513786_37, v__3513822_37);
-Obj v__3513824_37 = makeCons(co->gc, v__3513783_37, v__3513823_37);
-Obj v__3513825_37 = makeCons(co->gc, v__3513780_37, v__3513824_37);
-Obj v__3513826_37 = makeCons(co->gc, v__3513777_37, v__3513825_37);
-Obj v__3513827_37 = makeCons(co->gc, v__3513774_37, v__3513826_37);
-Obj v__3513828_37 = makeCons(co->gc, v__3513771_37, v__3513827_37);
-Obj v__3513829_37 = makeCons(co->gc, v__3513768_37, v__3513828_37);
-Obj v__3513830_37 = makeCons(co->gc, v__3513765_37, v__3513829_37);
-Obj v__3513831_37 = primSet(co, getBinding(co, packageID, 69).name, v__3513830_37);
-Obj v__3513846_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
-Obj v__3513850_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
-Obj v__3514028_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
-Obj v__3514029_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3514030_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3514029_37);
-Obj v__3514031_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3514030_37);
-Obj v__3514032_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3514031_37);
-Obj v__3514033_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3514032_37);
-Obj v__3514034_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3514033_37);
-Obj v__3514035_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3514034_37);
-Obj v__3514036_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3514035_37);
-Obj v__3514037_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3514036_37);
-Obj v__3514038_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3514037_37);
-Obj v__3514039_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3514038_37);
-Obj v__3514040_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3514039_37);
-Obj v__3514041_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3514040_37);
-Obj v__3514042_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3514041_37);
-Obj v__3514043_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3514042_37);
-Obj v__3514044_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3514043_37);
-Obj v__3514045_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3514044_37);
-Obj v__3514046_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3514045_37);
-Obj v__3514047_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3514046_37);
-Obj v__3514048_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3514047_37);
-Obj v__3514049_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3514048_37);
-Obj v__3514050_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3514049_37);
-Obj v__3514051_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3514050_37);
-Obj v__3514052_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3514051_37);
-Obj v__3514053_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3514052_37);
-Obj v__3514054_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3514053_37);
-Obj v__3514055_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3514054_37);
-Obj v__3514056_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3514055_37);
-Obj v__3514057_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3514056_37);
-Obj v__3514058_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3514057_37);
-Obj v__3514059_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3514058_37);
-Obj v__3514060_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3514059_37);
-Obj v__3514061_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3514060_37);
-Obj v__3514062_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3514061_37);
-Obj v__3514063_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3514062_37);
-Obj v__3514064_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3514063_37);
-Obj v__3514065_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3514064_37);
-Obj v__3514066_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3514065_37);
-Obj v__3514067_37 = primSet(co, getBinding(co, packageID, 53).name, v__3514066_37);
-Obj v__3514068_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3514069_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3514070_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3514071_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3514072_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3514073_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3514074_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3514075_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
-Obj v__3514076_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3514077_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
-Obj v__3514078_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
-Obj v__3514079_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3514080_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3514081_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3514082_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3514083_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3514084_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3514085_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3514086_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3514087_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3514088_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3514089_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3514090_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3514091_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3514092_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3514093_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3514094_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3514095_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3514096_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3514097_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3514098_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3514099_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
-Obj v__3514100_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
-Obj v__3514101_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
-Obj v__3514102_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
-Obj v__3514103_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3514104_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3514105_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3514106_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3514106_37);
+Obj v__3515274_37= co->res;
+Obj v__3515280_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
+Obj v__3515292_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
+Obj v__3515293_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3515294_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515293_37);
+Obj v__3515295_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515294_37);
+Obj v__3515296_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3515297_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515296_37);
+Obj v__3515298_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515297_37);
+Obj v__3515299_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3515300_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515299_37);
+Obj v__3515301_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515300_37);
+Obj v__3515302_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3515303_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515302_37);
+Obj v__3515304_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515303_37);
+Obj v__3515305_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3515306_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515305_37);
+Obj v__3515307_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515306_37);
+Obj v__3515308_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3515309_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515308_37);
+Obj v__3515310_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515309_37);
+Obj v__3515311_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3515312_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515311_37);
+Obj v__3515313_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515312_37);
+Obj v__3515314_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3515315_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515314_37);
+Obj v__3515316_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515315_37);
+Obj v__3515317_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3515318_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515317_37);
+Obj v__3515319_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515318_37);
+Obj v__3515320_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3515321_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515320_37);
+Obj v__3515322_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515321_37);
+Obj v__3515323_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3515324_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515323_37);
+Obj v__3515325_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515324_37);
+Obj v__3515326_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3515327_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515326_37);
+Obj v__3515328_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515327_37);
+Obj v__3515329_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3515330_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515329_37);
+Obj v__3515331_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515330_37);
+Obj v__3515332_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3515333_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515332_37);
+Obj v__3515334_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515333_37);
+Obj v__3515335_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3515336_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515335_37);
+Obj v__3515337_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515336_37);
+Obj v__3515338_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3515339_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515338_37);
+Obj v__3515340_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515339_37);
+Obj v__3515341_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3515342_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515341_37);
+Obj v__3515343_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515342_37);
+Obj v__3515344_37 = makeCons(co->gc, v__3515343_37, Nil);
+Obj v__3515345_37 = makeCons(co->gc, v__3515340_37, v__3515344_37);
+Obj v__3515346_37 = makeCons(co->gc, v__3515337_37, v__3515345_37);
+Obj v__3515347_37 = makeCons(co->gc, v__3515334_37, v__3515346_37);
+Obj v__3515348_37 = makeCons(co->gc, v__3515331_37, v__3515347_37);
+Obj v__3515349_37 = makeCons(co->gc, v__3515328_37, v__3515348_37);
+Obj v__3515350_37 = makeCons(co->gc, v__3515325_37, v__3515349_37);
+Obj v__3515351_37 = makeCons(co->gc, v__3515322_37, v__3515350_37);
+Obj v__3515352_37 = makeCons(co->gc, v__3515319_37, v__3515351_37);
+Obj v__3515353_37 = makeCons(co->gc, v__3515316_37, v__3515352_37);
+Obj v__3515354_37 = makeCons(co->gc, v__3515313_37, v__3515353_37);
+Obj v__3515355_37 = makeCons(co->gc, v__3515310_37, v__3515354_37);
+Obj v__3515356_37 = makeCons(co->gc, v__3515307_37, v__3515355_37);
+Obj v__3515357_37 = makeCons(co->gc, v__3515304_37, v__3515356_37);
+Obj v__3515358_37 = makeCons(co->gc, v__3515301_37, v__3515357_37);
+Obj v__3515359_37 = makeCons(co->gc, v__3515298_37, v__3515358_37);
+Obj v__3515360_37 = makeCons(co->gc, v__3515295_37, v__3515359_37);
+Obj v__3515361_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515360_37);
+Obj v__3515376_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
+Obj v__3515380_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
+Obj v__3515558_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
+Obj v__3515559_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3515560_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515559_37);
+Obj v__3515561_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515560_37);
+Obj v__3515562_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515561_37);
+Obj v__3515563_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515562_37);
+Obj v__3515564_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3515563_37);
+Obj v__3515565_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3515564_37);
+Obj v__3515566_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515565_37);
+Obj v__3515567_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515566_37);
+Obj v__3515568_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515567_37);
+Obj v__3515569_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515568_37);
+Obj v__3515570_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515569_37);
+Obj v__3515571_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515570_37);
+Obj v__3515572_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515571_37);
+Obj v__3515573_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515572_37);
+Obj v__3515574_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515573_37);
+Obj v__3515575_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515574_37);
+Obj v__3515576_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515575_37);
+Obj v__3515577_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515576_37);
+Obj v__3515578_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515577_37);
+Obj v__3515579_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515578_37);
+Obj v__3515580_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515579_37);
+Obj v__3515581_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515580_37);
+Obj v__3515582_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515581_37);
+Obj v__3515583_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515582_37);
+Obj v__3515584_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515583_37);
+Obj v__3515585_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3515584_37);
+Obj v__3515586_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515585_37);
+Obj v__3515587_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3515586_37);
+Obj v__3515588_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515587_37);
+Obj v__3515589_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515588_37);
+Obj v__3515590_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515589_37);
+Obj v__3515591_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515590_37);
+Obj v__3515592_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515591_37);
+Obj v__3515593_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515592_37);
+Obj v__3515594_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515593_37);
+Obj v__3515595_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515594_37);
+Obj v__3515596_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515595_37);
+Obj v__3515597_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515596_37);
+Obj v__3515598_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3515599_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3515600_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3515601_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3515602_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3515603_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3515604_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3515605_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj v__3515606_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3515607_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj v__3515608_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj v__3515609_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3515610_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3515611_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3515612_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3515613_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3515614_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3515615_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3515616_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3515617_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3515618_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3515619_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3515620_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3515621_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3515622_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3515623_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3515624_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3515625_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3515626_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3515627_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3515628_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3515629_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj v__3515630_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj v__3515631_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj v__3515632_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj v__3515633_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3515634_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3515635_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3515636_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3515636_37);
 return;
 }
 case 2:
 {
-Obj v__3513694_37= co->res;
-Obj v__3513723_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
-Obj v__3513724_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3515224_37= co->res;
+Obj v__3515253_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
+Obj v__3515254_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
 saveCont(co, clofun100, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun84, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3513677_37= co->res;
-Obj v__3513691_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3515207_37= co->res;
+Obj v__3515221_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun77, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3513655_37= co->res;
-Obj v__3513675_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3515185_37= co->res;
+Obj v__3515205_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
 saveCont(co, clofun100, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun75, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3513624_37= co->res;
-Obj v__3513625_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
-Obj v__3513626_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
-Obj v__3513629_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
-Obj v__3513653_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
+Obj v__3515154_37= co->res;
+Obj v__3515155_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3515156_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v__3515159_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
+Obj v__3515183_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
 saveCont(co, clofun100, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3513517_37= co->res;
-Obj v__3513569_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
-Obj v__3513570_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
-Obj v__3513575_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3513579_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3513580_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
-Obj v__3513588_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj v__3513589_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
-Obj v__3513595_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
-Obj v__3513606_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3513612_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
+Obj v__3515047_37= co->res;
+Obj v__3515099_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
+Obj v__3515100_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
+Obj v__3515105_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3515109_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3515110_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
+Obj v__3515118_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj v__3515119_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3515125_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
+Obj v__3515136_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3515142_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
 saveCont(co, clofun100, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun65, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3513404_37= co->res;
-Obj v__3513426_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3513459_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3513472_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3513494_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3513512_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
-Obj v__3513516_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3514934_37= co->res;
+Obj v__3514956_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3514989_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3515002_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3515024_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3515042_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
+Obj v__3515046_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
 saveCont(co, clofun100, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun50, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3513389_37= co->res;
-Obj v__3513392_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3513402_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3514919_37= co->res;
+Obj v__3514922_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3514932_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun100, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3513375_37= co->res;
-Obj v__3513387_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3514905_37= co->res;
+Obj v__3514917_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun100, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3513361_37= co->res;
-Obj v__3513373_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3514891_37= co->res;
+Obj v__3514903_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun100, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3513347_37= co->res;
+Obj v__3514877_37= co->res;
 saveCont(co, clofun100, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3513325_37= co->res;
-Obj v__3513330_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3513333_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3513345_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3514855_37= co->res;
+Obj v__3514860_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3514863_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3514875_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun100, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3513315_37= co->res;
+Obj v__3514845_37= co->res;
 saveCont(co, clofun100, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3513313_37= co->res;
+Obj v__3514843_37= co->res;
 saveCont(co, clofun100, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3513258_37= co->res;
-Obj v__3513259_37 = primSet(co, getBinding(co, packageID, 150).name, v__3513258_37);
-Obj v__3513265_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3513266_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3513267_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
-Obj v__3513268_37 = primGenSym(co);
-Obj v__3513269_37 = primSet(co, getBinding(co, packageID, 146).name, v__3513268_37);
-Obj v__3513273_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3513282_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3513283_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3513300_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3513301_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
-Obj v__3513312_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3514788_37= co->res;
+Obj v__3514789_37 = primSet(co, getBinding(co, packageID, 150).name, v__3514788_37);
+Obj v__3514795_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3514796_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3514797_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj v__3514798_37 = primGenSym(co);
+Obj v__3514799_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514798_37);
+Obj v__3514803_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3514812_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3514813_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3514830_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3514831_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj v__3514842_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun100, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
@@ -602,67 +602,67 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513098_37 = R[1];
-Obj v__3513099_37 = R[2];
-Obj v__3513100_37 = R[3];
-Obj v__3513101_37 = R[4];
-Obj v__3513189_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3513098_37, v__3513099_37, v__3513100_37, v__3513101_37);
-R[1] = v__3513101_37;
-R[2] = v__3513189_37;
+Obj v__3514571_37 = R[1];
+Obj v__3514572_37 = R[2];
+Obj v__3514573_37 = R[3];
+Obj v__3514574_37 = R[4];
+Obj v__3514719_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3514571_37, v__3514572_37, v__3514573_37, v__3514574_37);
+R[1] = v__3514574_37;
+R[2] = v__3514719_37;
 saveCont(co, clofun99, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3513101_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514574_37);
 return;
 }
 case 1:
 {
-Obj v__3514027_37= co->res;
-Obj v__3513189_37 = R[1];
-if (True == v__3514027_37) {
+Obj v__3515557_37= co->res;
+Obj v__3514719_37 = R[1];
+if (True == v__3515557_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513189_37, True);
+coraCall1(co, v__3514719_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513189_37, False);
+coraCall1(co, v__3514719_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514026_37= co->res;
-Obj v__3513101_37 = R[1];
-Obj v__3513189_37 = R[2];
-if (True == v__3514026_37) {
+Obj v__3515556_37= co->res;
+Obj v__3514574_37 = R[1];
+Obj v__3514719_37 = R[2];
+if (True == v__3515556_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513189_37, True);
+coraCall1(co, v__3514719_37, True);
 return;
 } else {
-R[1] = v__3513189_37;
+R[1] = v__3514719_37;
 saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513101_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514574_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3514024_37= co->res;
-Obj v__3513101_37 = R[1];
-Obj v__3513189_37 = R[2];
-if (True == v__3514024_37) {
+Obj v__3515554_37= co->res;
+Obj v__3514574_37 = R[1];
+Obj v__3514719_37 = R[2];
+if (True == v__3515554_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513189_37, True);
+coraCall1(co, v__3514719_37, True);
 return;
 } else {
-Obj v__3514025_37 = primIsString(v__3513101_37);
-if (True == v__3514025_37) {
+Obj v__3515555_37 = primIsString(v__3514574_37);
+if (True == v__3515555_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513189_37, True);
+coraCall1(co, v__3514719_37, True);
 return;
 } else {
-R[1] = v__3513101_37;
-R[2] = v__3513189_37;
+R[1] = v__3514574_37;
+R[2] = v__3514719_37;
 saveCont(co, clofun99, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3513101_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3514574_37);
 return;
 }
 }
@@ -674,49 +674,49 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513188_37 = R[1];
-if (True == v__3513188_37) {
+Obj v__3514718_37 = R[1];
+if (True == v__3514718_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3513190_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3514012_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3514012_37) {
-Obj v__3514013_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3514014_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3514013_37);
-if (True == v__3514014_37) {
-Obj v__3514015_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514016_37 = PRIM_ISCONS(v__3514015_37);
-if (True == v__3514016_37) {
-Obj v__3514017_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514018_37 = PRIM_CAR(v__3514017_37);
-Obj v__3513215_37 = v__3514018_37;
-Obj v__3514019_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3514020_37 = PRIM_CDR(v__3514019_37);
-Obj v__3514021_37 = PRIM_EQ(Nil, v__3514020_37);
-if (True == v__3514021_37) {
-Obj v__3514022_37 = makeCons(co->gc, v__3513215_37, Nil);
-Obj v__3514023_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514022_37);
-coraReturn(co, v__3514023_37);
+Obj v__3514720_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515542_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3515542_37) {
+Obj v__3515543_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3515544_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515543_37);
+if (True == v__3515544_37) {
+Obj v__3515545_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515546_37 = PRIM_ISCONS(v__3515545_37);
+if (True == v__3515546_37) {
+Obj v__3515547_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515548_37 = PRIM_CAR(v__3515547_37);
+Obj v__3514745_37 = v__3515548_37;
+Obj v__3515549_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515550_37 = PRIM_CDR(v__3515549_37);
+Obj v__3515551_37 = PRIM_EQ(Nil, v__3515550_37);
+if (True == v__3515551_37) {
+Obj v__3515552_37 = makeCons(co->gc, v__3514745_37, Nil);
+Obj v__3515553_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515552_37);
+coraReturn(co, v__3515553_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3514720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3514720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3514720_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513190_37);
+coraCall0(co, v__3514720_37);
 return;
 }
 }
@@ -728,73 +728,73 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513851_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3513851_37) {
+Obj v__3515381_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3515381_37) {
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513191_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513990_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513990_37) {
-Obj v__3513991_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513992_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3513991_37);
-if (True == v__3513992_37) {
-Obj v__3513993_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513994_37 = PRIM_ISCONS(v__3513993_37);
-if (True == v__3513994_37) {
-Obj v__3513995_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513996_37 = PRIM_CAR(v__3513995_37);
-Obj v__3513213_37 = v__3513996_37;
-Obj v__3513997_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513998_37 = PRIM_CDR(v__3513997_37);
-Obj v__3513999_37 = PRIM_ISCONS(v__3513998_37);
-if (True == v__3513999_37) {
-Obj v__3514000_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514001_37 = PRIM_CDR(v__3514000_37);
-Obj v__3514002_37 = PRIM_CAR(v__3514001_37);
-Obj v__3513214_37 = v__3514002_37;
-Obj v__3514003_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514004_37 = PRIM_CDR(v__3514003_37);
-Obj v__3514005_37 = PRIM_CDR(v__3514004_37);
-Obj v__3514006_37 = PRIM_EQ(Nil, v__3514005_37);
-if (True == v__3514006_37) {
-R[1] = v__3513214_37;
-R[2] = v__3513213_37;
+Obj v__3514721_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515520_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515520_37) {
+Obj v__3515521_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515522_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3515521_37);
+if (True == v__3515522_37) {
+Obj v__3515523_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515524_37 = PRIM_ISCONS(v__3515523_37);
+if (True == v__3515524_37) {
+Obj v__3515525_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515526_37 = PRIM_CAR(v__3515525_37);
+Obj v__3514743_37 = v__3515526_37;
+Obj v__3515527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515528_37 = PRIM_CDR(v__3515527_37);
+Obj v__3515529_37 = PRIM_ISCONS(v__3515528_37);
+if (True == v__3515529_37) {
+Obj v__3515530_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515531_37 = PRIM_CDR(v__3515530_37);
+Obj v__3515532_37 = PRIM_CAR(v__3515531_37);
+Obj v__3514744_37 = v__3515532_37;
+Obj v__3515533_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515534_37 = PRIM_CDR(v__3515533_37);
+Obj v__3515535_37 = PRIM_CDR(v__3515534_37);
+Obj v__3515536_37 = PRIM_EQ(Nil, v__3515535_37);
+if (True == v__3515536_37) {
+R[1] = v__3514744_37;
+R[2] = v__3514743_37;
 saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513213_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514743_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3514721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3514721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3514721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3514721_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513191_37);
+coraCall0(co, v__3514721_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513853_37= co->res;
-if (True == v__3513853_37) {
+Obj v__3515383_37= co->res;
+if (True == v__3515383_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -805,8 +805,8 @@ return;
 }
 case 2:
 {
-Obj v__3513852_37= co->res;
-if (True == v__3513852_37) {
+Obj v__3515382_37= co->res;
+if (True == v__3515382_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -817,22 +817,22 @@ return;
 }
 case 3:
 {
-Obj v__3514008_37= co->res;
-Obj v__3513213_37 = R[1];
-Obj v__3514009_37 = makeCons(co->gc, v__3514008_37, Nil);
-Obj v__3514010_37 = makeCons(co->gc, v__3513213_37, v__3514009_37);
-Obj v__3514011_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514010_37);
-coraReturn(co, v__3514011_37);
+Obj v__3515538_37= co->res;
+Obj v__3514743_37 = R[1];
+Obj v__3515539_37 = makeCons(co->gc, v__3515538_37, Nil);
+Obj v__3515540_37 = makeCons(co->gc, v__3514743_37, v__3515539_37);
+Obj v__3515541_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515540_37);
+coraReturn(co, v__3515541_37);
 return;
 }
 case 4:
 {
-Obj v__3514007_37= co->res;
-Obj v__3513214_37 = R[1];
-Obj v__3513213_37 = R[2];
-R[1] = v__3513213_37;
+Obj v__3515537_37= co->res;
+Obj v__3514744_37 = R[1];
+Obj v__3514743_37 = R[2];
+R[1] = v__3514743_37;
 saveCont(co, clofun97, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3514007_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513214_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515537_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514744_37);
 return;
 }
 }
@@ -842,132 +842,132 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513192_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513946_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513946_37) {
-Obj v__3513947_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513948_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3513947_37);
-if (True == v__3513948_37) {
-Obj v__3513949_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513950_37 = PRIM_ISCONS(v__3513949_37);
-if (True == v__3513950_37) {
-Obj v__3513951_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513952_37 = PRIM_CAR(v__3513951_37);
-Obj v__3513953_37 = PRIM_ISCONS(v__3513952_37);
-if (True == v__3513953_37) {
-Obj v__3513954_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513955_37 = PRIM_CAR(v__3513954_37);
-Obj v__3513956_37 = PRIM_CAR(v__3513955_37);
-Obj v__3513957_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513956_37);
-if (True == v__3513957_37) {
-Obj v__3513958_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513959_37 = PRIM_CAR(v__3513958_37);
-Obj v__3513960_37 = PRIM_CDR(v__3513959_37);
-Obj v__3513961_37 = PRIM_ISCONS(v__3513960_37);
-if (True == v__3513961_37) {
-Obj v__3513962_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513963_37 = PRIM_CAR(v__3513962_37);
-Obj v__3513964_37 = PRIM_CDR(v__3513963_37);
-Obj v__3513965_37 = PRIM_CAR(v__3513964_37);
-Obj v__3513211_37 = v__3513965_37;
-Obj v__3513966_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513967_37 = PRIM_CAR(v__3513966_37);
-Obj v__3513968_37 = PRIM_CDR(v__3513967_37);
-Obj v__3513969_37 = PRIM_CDR(v__3513968_37);
-Obj v__3513970_37 = PRIM_EQ(Nil, v__3513969_37);
-if (True == v__3513970_37) {
-Obj v__3513971_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513972_37 = PRIM_CDR(v__3513971_37);
-Obj v__3513973_37 = PRIM_ISCONS(v__3513972_37);
-if (True == v__3513973_37) {
-Obj v__3513974_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513975_37 = PRIM_CDR(v__3513974_37);
-Obj v__3513976_37 = PRIM_CAR(v__3513975_37);
-Obj v__3513212_37 = v__3513976_37;
-Obj v__3513977_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513978_37 = PRIM_CDR(v__3513977_37);
-Obj v__3513979_37 = PRIM_CDR(v__3513978_37);
-Obj v__3513980_37 = PRIM_EQ(Nil, v__3513979_37);
-if (True == v__3513980_37) {
-Obj v__3513981_37 = primIsString(v__3513211_37);
-if (True == v__3513981_37) {
-Obj v__3513982_37 = makeCons(co->gc, v__3513211_37, Nil);
-Obj v__3513983_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513982_37);
-R[1] = v__3513211_37;
-R[2] = v__3513212_37;
+Obj v__3514722_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515476_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515476_37) {
+Obj v__3515477_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515478_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515477_37);
+if (True == v__3515478_37) {
+Obj v__3515479_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515480_37 = PRIM_ISCONS(v__3515479_37);
+if (True == v__3515480_37) {
+Obj v__3515481_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515482_37 = PRIM_CAR(v__3515481_37);
+Obj v__3515483_37 = PRIM_ISCONS(v__3515482_37);
+if (True == v__3515483_37) {
+Obj v__3515484_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515485_37 = PRIM_CAR(v__3515484_37);
+Obj v__3515486_37 = PRIM_CAR(v__3515485_37);
+Obj v__3515487_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515486_37);
+if (True == v__3515487_37) {
+Obj v__3515488_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515489_37 = PRIM_CAR(v__3515488_37);
+Obj v__3515490_37 = PRIM_CDR(v__3515489_37);
+Obj v__3515491_37 = PRIM_ISCONS(v__3515490_37);
+if (True == v__3515491_37) {
+Obj v__3515492_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515493_37 = PRIM_CAR(v__3515492_37);
+Obj v__3515494_37 = PRIM_CDR(v__3515493_37);
+Obj v__3515495_37 = PRIM_CAR(v__3515494_37);
+Obj v__3514741_37 = v__3515495_37;
+Obj v__3515496_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515497_37 = PRIM_CAR(v__3515496_37);
+Obj v__3515498_37 = PRIM_CDR(v__3515497_37);
+Obj v__3515499_37 = PRIM_CDR(v__3515498_37);
+Obj v__3515500_37 = PRIM_EQ(Nil, v__3515499_37);
+if (True == v__3515500_37) {
+Obj v__3515501_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515502_37 = PRIM_CDR(v__3515501_37);
+Obj v__3515503_37 = PRIM_ISCONS(v__3515502_37);
+if (True == v__3515503_37) {
+Obj v__3515504_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515505_37 = PRIM_CDR(v__3515504_37);
+Obj v__3515506_37 = PRIM_CAR(v__3515505_37);
+Obj v__3514742_37 = v__3515506_37;
+Obj v__3515507_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515508_37 = PRIM_CDR(v__3515507_37);
+Obj v__3515509_37 = PRIM_CDR(v__3515508_37);
+Obj v__3515510_37 = PRIM_EQ(Nil, v__3515509_37);
+if (True == v__3515510_37) {
+Obj v__3515511_37 = primIsString(v__3514741_37);
+if (True == v__3515511_37) {
+Obj v__3515512_37 = makeCons(co->gc, v__3514741_37, Nil);
+Obj v__3515513_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515512_37);
+R[1] = v__3514741_37;
+R[2] = v__3514742_37;
 saveCont(co, clofun96, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513983_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515513_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513192_37);
+coraCall0(co, v__3514722_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513986_37= co->res;
-Obj v__3513984_37 = R[1];
-Obj v__3513987_37 = makeCons(co->gc, v__3513986_37, Nil);
-Obj v__3513988_37 = makeCons(co->gc, v__3513984_37, v__3513987_37);
-Obj v__3513989_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513988_37);
-coraReturn(co, v__3513989_37);
+Obj v__3515516_37= co->res;
+Obj v__3515514_37 = R[1];
+Obj v__3515517_37 = makeCons(co->gc, v__3515516_37, Nil);
+Obj v__3515518_37 = makeCons(co->gc, v__3515514_37, v__3515517_37);
+Obj v__3515519_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515518_37);
+coraReturn(co, v__3515519_37);
 return;
 }
 case 2:
 {
-Obj v__3513984_37= co->res;
-Obj v__3513211_37 = R[1];
-Obj v__3513212_37 = R[2];
-Obj v__3513985_37 = makeCons(co->gc, v__3513211_37, closureRef(R[0], 3));
-R[1] = v__3513984_37;
+Obj v__3515514_37= co->res;
+Obj v__3514741_37 = R[1];
+Obj v__3514742_37 = R[2];
+Obj v__3515515_37 = makeCons(co->gc, v__3514741_37, closureRef(R[0], 3));
+R[1] = v__3515514_37;
 saveCont(co, clofun96, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3513985_37, v__3513212_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515515_37, v__3514742_37);
 return;
 }
 }
@@ -977,34 +977,34 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513193_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3513938_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513938_37) {
-Obj v__3513939_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513206_37 = v__3513939_37;
-Obj v__3513940_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513207_37 = v__3513940_37;
-Obj v__3513210_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3513206_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513207_37, v__3513193_37);
-Obj v__3513944_37 = PRIM_EQ(v__3513206_37, getBinding(co, packageID, 127).name);
-if (True == v__3513944_37) {
+Obj v__3514723_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515468_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515468_37) {
+Obj v__3515469_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514736_37 = v__3515469_37;
+Obj v__3515470_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514737_37 = v__3515470_37;
+Obj v__3514740_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3514736_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514737_37, v__3514723_37);
+Obj v__3515474_37 = PRIM_EQ(v__3514736_37, getBinding(co, packageID, 127).name);
+if (True == v__3515474_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513210_37, True);
+coraCall1(co, v__3514740_37, True);
 return;
 } else {
-Obj v__3513945_37 = PRIM_EQ(v__3513206_37, getBinding(co, packageID, 90).name);
-if (True == v__3513945_37) {
+Obj v__3515475_37 = PRIM_EQ(v__3514736_37, getBinding(co, packageID, 90).name);
+if (True == v__3515475_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513210_37, True);
+coraCall1(co, v__3514740_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513210_37, False);
+coraCall1(co, v__3514740_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513193_37);
+coraCall0(co, v__3514723_37);
 return;
 }
 }
@@ -1015,8 +1015,8 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513209_37 = R[1];
-if (True == v__3513209_37) {
+Obj v__3514739_37 = R[1];
+if (True == v__3514739_37) {
 saveCont(co, clofun94, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1028,16 +1028,16 @@ return;
 }
 case 1:
 {
-Obj v__3513942_37= co->res;
-Obj v__3513943_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513942_37);
-coraReturn(co, v__3513943_37);
+Obj v__3515472_37= co->res;
+Obj v__3515473_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515472_37);
+coraReturn(co, v__3515473_37);
 return;
 }
 case 2:
 {
-Obj v__3513941_37= co->res;
+Obj v__3515471_37= co->res;
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3513941_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515471_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1047,100 +1047,100 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513194_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513905_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513905_37) {
-Obj v__3513906_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513907_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3513906_37);
-if (True == v__3513907_37) {
-Obj v__3513908_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513909_37 = PRIM_ISCONS(v__3513908_37);
-if (True == v__3513909_37) {
-Obj v__3513910_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513911_37 = PRIM_CAR(v__3513910_37);
-Obj v__3513203_37 = v__3513911_37;
-Obj v__3513912_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513913_37 = PRIM_CDR(v__3513912_37);
-Obj v__3513914_37 = PRIM_ISCONS(v__3513913_37);
-if (True == v__3513914_37) {
-Obj v__3513915_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513916_37 = PRIM_CDR(v__3513915_37);
-Obj v__3513917_37 = PRIM_CAR(v__3513916_37);
-Obj v__3513204_37 = v__3513917_37;
-Obj v__3513918_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513919_37 = PRIM_CDR(v__3513918_37);
-Obj v__3513920_37 = PRIM_CDR(v__3513919_37);
-Obj v__3513921_37 = PRIM_ISCONS(v__3513920_37);
-if (True == v__3513921_37) {
-Obj v__3513922_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513923_37 = PRIM_CDR(v__3513922_37);
-Obj v__3513924_37 = PRIM_CDR(v__3513923_37);
-Obj v__3513925_37 = PRIM_CAR(v__3513924_37);
-Obj v__3513205_37 = v__3513925_37;
-Obj v__3513926_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513927_37 = PRIM_CDR(v__3513926_37);
-Obj v__3513928_37 = PRIM_CDR(v__3513927_37);
-Obj v__3513929_37 = PRIM_CDR(v__3513928_37);
-Obj v__3513930_37 = PRIM_EQ(Nil, v__3513929_37);
-if (True == v__3513930_37) {
-R[1] = v__3513205_37;
-R[2] = v__3513203_37;
+Obj v__3514724_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515435_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515435_37) {
+Obj v__3515436_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515437_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3515436_37);
+if (True == v__3515437_37) {
+Obj v__3515438_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515439_37 = PRIM_ISCONS(v__3515438_37);
+if (True == v__3515439_37) {
+Obj v__3515440_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515441_37 = PRIM_CAR(v__3515440_37);
+Obj v__3514733_37 = v__3515441_37;
+Obj v__3515442_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515443_37 = PRIM_CDR(v__3515442_37);
+Obj v__3515444_37 = PRIM_ISCONS(v__3515443_37);
+if (True == v__3515444_37) {
+Obj v__3515445_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515446_37 = PRIM_CDR(v__3515445_37);
+Obj v__3515447_37 = PRIM_CAR(v__3515446_37);
+Obj v__3514734_37 = v__3515447_37;
+Obj v__3515448_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515449_37 = PRIM_CDR(v__3515448_37);
+Obj v__3515450_37 = PRIM_CDR(v__3515449_37);
+Obj v__3515451_37 = PRIM_ISCONS(v__3515450_37);
+if (True == v__3515451_37) {
+Obj v__3515452_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515453_37 = PRIM_CDR(v__3515452_37);
+Obj v__3515454_37 = PRIM_CDR(v__3515453_37);
+Obj v__3515455_37 = PRIM_CAR(v__3515454_37);
+Obj v__3514735_37 = v__3515455_37;
+Obj v__3515456_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515457_37 = PRIM_CDR(v__3515456_37);
+Obj v__3515458_37 = PRIM_CDR(v__3515457_37);
+Obj v__3515459_37 = PRIM_CDR(v__3515458_37);
+Obj v__3515460_37 = PRIM_EQ(Nil, v__3515459_37);
+if (True == v__3515460_37) {
+R[1] = v__3514735_37;
+R[2] = v__3514733_37;
 saveCont(co, clofun93, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513204_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514734_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513194_37);
+coraCall0(co, v__3514724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513194_37);
+coraCall0(co, v__3514724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513194_37);
+coraCall0(co, v__3514724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513194_37);
+coraCall0(co, v__3514724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513194_37);
+coraCall0(co, v__3514724_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513194_37);
+coraCall0(co, v__3514724_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513933_37= co->res;
-Obj v__3513931_37 = R[1];
-Obj v__3513203_37 = R[2];
-Obj v__3513934_37 = makeCons(co->gc, v__3513933_37, Nil);
-Obj v__3513935_37 = makeCons(co->gc, v__3513931_37, v__3513934_37);
-Obj v__3513936_37 = makeCons(co->gc, v__3513203_37, v__3513935_37);
-Obj v__3513937_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513936_37);
-coraReturn(co, v__3513937_37);
+Obj v__3515463_37= co->res;
+Obj v__3515461_37 = R[1];
+Obj v__3514733_37 = R[2];
+Obj v__3515464_37 = makeCons(co->gc, v__3515463_37, Nil);
+Obj v__3515465_37 = makeCons(co->gc, v__3515461_37, v__3515464_37);
+Obj v__3515466_37 = makeCons(co->gc, v__3514733_37, v__3515465_37);
+Obj v__3515467_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515466_37);
+coraReturn(co, v__3515467_37);
 return;
 }
 case 2:
 {
-Obj v__3513931_37= co->res;
-Obj v__3513205_37 = R[1];
-Obj v__3513203_37 = R[2];
-Obj v__3513932_37 = makeCons(co->gc, v__3513203_37, closureRef(R[0], 1));
-R[1] = v__3513931_37;
-R[2] = v__3513203_37;
+Obj v__3515461_37= co->res;
+Obj v__3514735_37 = R[1];
+Obj v__3514733_37 = R[2];
+Obj v__3515462_37 = makeCons(co->gc, v__3514733_37, closureRef(R[0], 1));
+R[1] = v__3515461_37;
+R[2] = v__3514733_37;
 saveCont(co, clofun93, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3513932_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3513205_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515462_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514735_37);
 return;
 }
 }
@@ -1150,73 +1150,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513195_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513879_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3513879_37) {
-Obj v__3513880_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3513881_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3513880_37);
-if (True == v__3513881_37) {
-Obj v__3513882_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513883_37 = PRIM_ISCONS(v__3513882_37);
-if (True == v__3513883_37) {
-Obj v__3513884_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513885_37 = PRIM_CAR(v__3513884_37);
-Obj v__3513200_37 = v__3513885_37;
-Obj v__3513886_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513887_37 = PRIM_CDR(v__3513886_37);
-Obj v__3513888_37 = PRIM_ISCONS(v__3513887_37);
-if (True == v__3513888_37) {
-Obj v__3513889_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513890_37 = PRIM_CDR(v__3513889_37);
-Obj v__3513891_37 = PRIM_CAR(v__3513890_37);
-Obj v__3513201_37 = v__3513891_37;
-Obj v__3513892_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513893_37 = PRIM_CDR(v__3513892_37);
-Obj v__3513894_37 = PRIM_CDR(v__3513893_37);
-Obj v__3513895_37 = PRIM_ISCONS(v__3513894_37);
-if (True == v__3513895_37) {
-Obj v__3513896_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513897_37 = PRIM_CDR(v__3513896_37);
-Obj v__3513898_37 = PRIM_CDR(v__3513897_37);
-Obj v__3513899_37 = PRIM_CAR(v__3513898_37);
-Obj v__3513202_37 = v__3513899_37;
-Obj v__3513900_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3513901_37 = PRIM_CDR(v__3513900_37);
-Obj v__3513902_37 = PRIM_CDR(v__3513901_37);
-Obj v__3513903_37 = PRIM_CDR(v__3513902_37);
-Obj v__3513904_37 = PRIM_EQ(Nil, v__3513903_37);
-if (True == v__3513904_37) {
+Obj v__3514725_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515409_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3515409_37) {
+Obj v__3515410_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3515411_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515410_37);
+if (True == v__3515411_37) {
+Obj v__3515412_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515413_37 = PRIM_ISCONS(v__3515412_37);
+if (True == v__3515413_37) {
+Obj v__3515414_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515415_37 = PRIM_CAR(v__3515414_37);
+Obj v__3514730_37 = v__3515415_37;
+Obj v__3515416_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515417_37 = PRIM_CDR(v__3515416_37);
+Obj v__3515418_37 = PRIM_ISCONS(v__3515417_37);
+if (True == v__3515418_37) {
+Obj v__3515419_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515420_37 = PRIM_CDR(v__3515419_37);
+Obj v__3515421_37 = PRIM_CAR(v__3515420_37);
+Obj v__3514731_37 = v__3515421_37;
+Obj v__3515422_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515423_37 = PRIM_CDR(v__3515422_37);
+Obj v__3515424_37 = PRIM_CDR(v__3515423_37);
+Obj v__3515425_37 = PRIM_ISCONS(v__3515424_37);
+if (True == v__3515425_37) {
+Obj v__3515426_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515427_37 = PRIM_CDR(v__3515426_37);
+Obj v__3515428_37 = PRIM_CDR(v__3515427_37);
+Obj v__3515429_37 = PRIM_CAR(v__3515428_37);
+Obj v__3514732_37 = v__3515429_37;
+Obj v__3515430_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515431_37 = PRIM_CDR(v__3515430_37);
+Obj v__3515432_37 = PRIM_CDR(v__3515431_37);
+Obj v__3515433_37 = PRIM_CDR(v__3515432_37);
+Obj v__3515434_37 = PRIM_EQ(Nil, v__3515433_37);
+if (True == v__3515434_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3513200_37, v__3513201_37, v__3513202_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514730_37, v__3514731_37, v__3514732_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513195_37);
+coraCall0(co, v__3514725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513195_37);
+coraCall0(co, v__3514725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513195_37);
+coraCall0(co, v__3514725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513195_37);
+coraCall0(co, v__3514725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513195_37);
+coraCall0(co, v__3514725_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513195_37);
+coraCall0(co, v__3514725_37);
 return;
 }
 }
@@ -1227,81 +1227,81 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513196_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3513855_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513855_37) {
-Obj v__3513856_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513857_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3513856_37);
-if (True == v__3513857_37) {
-Obj v__3513858_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513859_37 = PRIM_ISCONS(v__3513858_37);
-if (True == v__3513859_37) {
-Obj v__3513860_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513861_37 = PRIM_CAR(v__3513860_37);
-Obj v__3513197_37 = v__3513861_37;
-Obj v__3513862_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513863_37 = PRIM_CDR(v__3513862_37);
-Obj v__3513864_37 = PRIM_ISCONS(v__3513863_37);
-if (True == v__3513864_37) {
-Obj v__3513865_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513866_37 = PRIM_CDR(v__3513865_37);
-Obj v__3513867_37 = PRIM_CAR(v__3513866_37);
-Obj v__3513198_37 = v__3513867_37;
-Obj v__3513868_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513869_37 = PRIM_CDR(v__3513868_37);
-Obj v__3513870_37 = PRIM_CDR(v__3513869_37);
-Obj v__3513871_37 = PRIM_EQ(Nil, v__3513870_37);
-if (True == v__3513871_37) {
-R[1] = v__3513198_37;
+Obj v__3514726_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3515385_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515385_37) {
+Obj v__3515386_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515387_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3515386_37);
+if (True == v__3515387_37) {
+Obj v__3515388_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515389_37 = PRIM_ISCONS(v__3515388_37);
+if (True == v__3515389_37) {
+Obj v__3515390_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515391_37 = PRIM_CAR(v__3515390_37);
+Obj v__3514727_37 = v__3515391_37;
+Obj v__3515392_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515393_37 = PRIM_CDR(v__3515392_37);
+Obj v__3515394_37 = PRIM_ISCONS(v__3515393_37);
+if (True == v__3515394_37) {
+Obj v__3515395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515396_37 = PRIM_CDR(v__3515395_37);
+Obj v__3515397_37 = PRIM_CAR(v__3515396_37);
+Obj v__3514728_37 = v__3515397_37;
+Obj v__3515398_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515399_37 = PRIM_CDR(v__3515398_37);
+Obj v__3515400_37 = PRIM_CDR(v__3515399_37);
+Obj v__3515401_37 = PRIM_EQ(Nil, v__3515400_37);
+if (True == v__3515401_37) {
+R[1] = v__3514728_37;
 saveCont(co, clofun91, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513197_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514727_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513196_37);
+coraCall0(co, v__3514726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513196_37);
+coraCall0(co, v__3514726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513196_37);
+coraCall0(co, v__3514726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513196_37);
+coraCall0(co, v__3514726_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513196_37);
+coraCall0(co, v__3514726_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513875_37= co->res;
-Obj v__3513874_37 = R[1];
-Obj v__3513876_37 = makeCons(co->gc, v__3513875_37, Nil);
-Obj v__3513877_37 = makeCons(co->gc, v__3513874_37, v__3513876_37);
-Obj v__3513878_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3513877_37);
-coraReturn(co, v__3513878_37);
+Obj v__3515405_37= co->res;
+Obj v__3515404_37 = R[1];
+Obj v__3515406_37 = makeCons(co->gc, v__3515405_37, Nil);
+Obj v__3515407_37 = makeCons(co->gc, v__3515404_37, v__3515406_37);
+Obj v__3515408_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515407_37);
+coraReturn(co, v__3515408_37);
 return;
 }
 case 2:
 {
-Obj v__3513872_37= co->res;
-Obj v__3513198_37 = R[1];
-Obj v__3513199_37 = v__3513872_37;
-Obj v__3513873_37 = makeCons(co->gc, v__3513199_37, Nil);
-Obj v__3513874_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513873_37);
-R[1] = v__3513874_37;
+Obj v__3515402_37= co->res;
+Obj v__3514728_37 = R[1];
+Obj v__3514729_37 = v__3515402_37;
+Obj v__3515403_37 = makeCons(co->gc, v__3514729_37, Nil);
+Obj v__3515404_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515403_37);
+R[1] = v__3515404_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3513198_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514728_37);
 return;
 }
 }
@@ -1317,9 +1317,9 @@ return;
 }
 case 1:
 {
-Obj v__3513854_37= co->res;
+Obj v__3515384_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3513854_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515384_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,23 +1329,23 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3514570_37 = R[1];
 saveCont(co, clofun89, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v_x, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514570_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v__3513848_37= co->res;
-Obj v__3513849_37 = primNot(v__3513848_37);
-coraReturn(co, v__3513849_37);
+Obj v__3515378_37= co->res;
+Obj v__3515379_37 = primNot(v__3515378_37);
+coraReturn(co, v__3515379_37);
 return;
 }
 case 2:
 {
-Obj v__3513847_37= co->res;
+Obj v__3515377_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513847_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515377_37);
 return;
 }
 }
@@ -1355,44 +1355,44 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513093_37 = R[1];
-Obj v__3513094_37 = R[2];
-Obj v__3513832_37 = PRIM_EQ(Nil, v__3513094_37);
-if (True == v__3513832_37) {
+Obj v__3514560_37 = R[1];
+Obj v__3514561_37 = R[2];
+Obj v__3515362_37 = PRIM_EQ(Nil, v__3514561_37);
+if (True == v__3515362_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513183_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3513094_37, v__3513093_37);
-Obj v__3513836_37 = PRIM_ISCONS(v__3513094_37);
-if (True == v__3513836_37) {
-Obj v__3513837_37 = PRIM_CAR(v__3513094_37);
-Obj v__3513838_37 = PRIM_ISCONS(v__3513837_37);
-if (True == v__3513838_37) {
-Obj v__3513839_37 = PRIM_CAR(v__3513094_37);
-Obj v__3513840_37 = PRIM_CAR(v__3513839_37);
-Obj v__3513185_37 = v__3513840_37;
-Obj v__3513841_37 = PRIM_CAR(v__3513094_37);
-Obj v__3513842_37 = PRIM_CDR(v__3513841_37);
-Obj v__3513186_37 = v__3513842_37;
-Obj v__3513843_37 = PRIM_CDR(v__3513094_37);
-Obj v__3513844_37 = PRIM_EQ(v__3513093_37, v__3513185_37);
-if (True == v__3513844_37) {
-Obj v__3513845_37 = makeCons(co->gc, v__3513185_37, v__3513186_37);
-coraReturn(co, v__3513845_37);
+Obj v__3514713_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3514561_37, v__3514560_37);
+Obj v__3515366_37 = PRIM_ISCONS(v__3514561_37);
+if (True == v__3515366_37) {
+Obj v__3515367_37 = PRIM_CAR(v__3514561_37);
+Obj v__3515368_37 = PRIM_ISCONS(v__3515367_37);
+if (True == v__3515368_37) {
+Obj v__3515369_37 = PRIM_CAR(v__3514561_37);
+Obj v__3515370_37 = PRIM_CAR(v__3515369_37);
+Obj v__3514715_37 = v__3515370_37;
+Obj v__3515371_37 = PRIM_CAR(v__3514561_37);
+Obj v__3515372_37 = PRIM_CDR(v__3515371_37);
+Obj v__3514716_37 = v__3515372_37;
+Obj v__3515373_37 = PRIM_CDR(v__3514561_37);
+Obj v__3515374_37 = PRIM_EQ(v__3514560_37, v__3514715_37);
+if (True == v__3515374_37) {
+Obj v__3515375_37 = makeCons(co->gc, v__3514715_37, v__3514716_37);
+coraReturn(co, v__3515375_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513183_37);
+coraCall0(co, v__3514713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513183_37);
+coraCall0(co, v__3514713_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513183_37);
+coraCall0(co, v__3514713_37);
 return;
 }
 }
@@ -1404,13 +1404,13 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513833_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513833_37) {
-Obj v__3513834_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513835_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513184_37 = v__3513835_37;
+Obj v__3515363_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515363_37) {
+Obj v__3515364_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515365_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514714_37 = v__3515365_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3513184_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514714_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1425,27 +1425,27 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513088_37 = R[1];
-Obj v__3513089_37 = R[2];
-Obj v__3513090_37 = R[3];
-Obj v__3513751_37 = PRIM_EQ(Nil, v__3513090_37);
-if (True == v__3513751_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3513088_37, v__3513089_37);
-return;
-} else {
-Obj v__3513752_37 = PRIM_ISCONS(v__3513090_37);
-if (True == v__3513752_37) {
-Obj v__3513753_37 = PRIM_CAR(v__3513090_37);
-Obj v__3513180_37 = v__3513753_37;
-Obj v__3513754_37 = PRIM_CDR(v__3513090_37);
-Obj v__3513181_37 = v__3513754_37;
-R[1] = v__3513180_37;
-R[2] = v__3513088_37;
-R[3] = v__3513089_37;
-R[4] = v__3513181_37;
+Obj v__3514551_37 = R[1];
+Obj v__3514552_37 = R[2];
+Obj v__3514553_37 = R[3];
+Obj v__3515281_37 = PRIM_EQ(Nil, v__3514553_37);
+if (True == v__3515281_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514551_37, v__3514552_37);
+return;
+} else {
+Obj v__3515282_37 = PRIM_ISCONS(v__3514553_37);
+if (True == v__3515282_37) {
+Obj v__3515283_37 = PRIM_CAR(v__3514553_37);
+Obj v__3514710_37 = v__3515283_37;
+Obj v__3515284_37 = PRIM_CDR(v__3514553_37);
+Obj v__3514711_37 = v__3515284_37;
+R[1] = v__3514710_37;
+R[2] = v__3514551_37;
+R[3] = v__3514552_37;
+R[4] = v__3514711_37;
 saveCont(co, clofun86, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513180_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514710_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1456,90 +1456,90 @@ return;
 }
 case 1:
 {
-Obj v__3513761_37= co->res;
+Obj v__3515291_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513761_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515291_37);
 return;
 }
 case 2:
 {
-Obj v__3513760_37= co->res;
-Obj v__3513180_37 = R[1];
+Obj v__3515290_37= co->res;
+Obj v__3514710_37 = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3513180_37, v__3513760_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514710_37, v__3515290_37);
 return;
 }
 case 3:
 {
-Obj v__3513759_37= co->res;
-Obj v__3513180_37 = R[1];
-R[1] = v__3513180_37;
+Obj v__3515289_37= co->res;
+Obj v__3514710_37 = R[1];
+R[1] = v__3514710_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513759_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515289_37);
 return;
 }
 case 4:
 {
-Obj v__3513758_37= co->res;
-Obj v__3513180_37 = R[1];
-Obj v__3513088_37 = R[2];
-Obj v__3513089_37 = R[3];
-Obj v__3513181_37 = R[4];
-if (True == v__3513758_37) {
-R[1] = v__3513180_37;
+Obj v__3515288_37= co->res;
+Obj v__3514710_37 = R[1];
+Obj v__3514551_37 = R[2];
+Obj v__3514552_37 = R[3];
+Obj v__3514711_37 = R[4];
+if (True == v__3515288_37) {
+R[1] = v__3514710_37;
 saveCont(co, clofun86, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3513088_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514551_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3513088_37, v__3513089_37, v__3513181_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514551_37, v__3514552_37, v__3514711_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3513757_37= co->res;
-Obj v__3513180_37 = R[1];
-Obj v__3513088_37 = R[2];
-Obj v__3513089_37 = R[3];
-Obj v__3513181_37 = R[4];
-Obj v__3513182_37 = v__3513757_37;
-R[1] = v__3513180_37;
-R[2] = v__3513088_37;
-R[3] = v__3513089_37;
-R[4] = v__3513181_37;
+Obj v__3515287_37= co->res;
+Obj v__3514710_37 = R[1];
+Obj v__3514551_37 = R[2];
+Obj v__3514552_37 = R[3];
+Obj v__3514711_37 = R[4];
+Obj v__3514712_37 = v__3515287_37;
+R[1] = v__3514710_37;
+R[2] = v__3514551_37;
+R[3] = v__3514552_37;
+R[4] = v__3514711_37;
 saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3513088_37, v__3513182_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514551_37, v__3514712_37);
 return;
 }
 case 6:
 {
-Obj v__3513756_37= co->res;
-Obj v__3513180_37 = R[1];
-Obj v__3513088_37 = R[2];
-Obj v__3513089_37 = R[3];
-Obj v__3513181_37 = R[4];
-R[1] = v__3513180_37;
-R[2] = v__3513088_37;
-R[3] = v__3513089_37;
-R[4] = v__3513181_37;
+Obj v__3515286_37= co->res;
+Obj v__3514710_37 = R[1];
+Obj v__3514551_37 = R[2];
+Obj v__3514552_37 = R[3];
+Obj v__3514711_37 = R[4];
+R[1] = v__3514710_37;
+R[2] = v__3514551_37;
+R[3] = v__3514552_37;
+R[4] = v__3514711_37;
 saveCont(co, clofun86, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3513756_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515286_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3513755_37= co->res;
-Obj v__3513180_37 = R[1];
-Obj v__3513088_37 = R[2];
-Obj v__3513089_37 = R[3];
-Obj v__3513181_37 = R[4];
-R[1] = v__3513180_37;
-R[2] = v__3513088_37;
-R[3] = v__3513089_37;
-R[4] = v__3513181_37;
+Obj v__3515285_37= co->res;
+Obj v__3514710_37 = R[1];
+Obj v__3514551_37 = R[2];
+Obj v__3514552_37 = R[3];
+Obj v__3514711_37 = R[4];
+R[1] = v__3514710_37;
+R[2] = v__3514551_37;
+R[3] = v__3514552_37;
+R[4] = v__3514711_37;
 saveCont(co, clofun86, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513755_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515285_37);
 return;
 }
 }
@@ -1549,56 +1549,56 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_var = R[1];
-Obj v_ns = R[2];
-Obj v__3513745_37 = PRIM_EQ(v_ns, makeCString(co->gc, ""));
-if (True == v__3513745_37) {
-coraReturn(co, v_var);
+Obj v__3514549_37 = R[1];
+Obj v__3514550_37 = R[2];
+Obj v__3515275_37 = PRIM_EQ(v__3514550_37, makeCString(co->gc, ""));
+if (True == v__3515275_37) {
+coraReturn(co, v__3514549_37);
 return;
 } else {
-R[1] = v_var;
-R[2] = v_ns;
+R[1] = v__3514549_37;
+R[2] = v__3514550_37;
 saveCont(co, clofun85, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v_var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514549_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513749_37= co->res;
+Obj v__3515279_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3513749_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515279_37);
 return;
 }
 case 2:
 {
-Obj v__3513748_37= co->res;
-Obj v_ns = R[1];
+Obj v__3515278_37= co->res;
+Obj v__3514550_37 = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v_ns, v__3513748_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514550_37, v__3515278_37);
 return;
 }
 case 3:
 {
-Obj v__3513747_37= co->res;
-Obj v_ns = R[1];
-R[1] = v_ns;
+Obj v__3515277_37= co->res;
+Obj v__3514550_37 = R[1];
+R[1] = v__3514550_37;
 saveCont(co, clofun85, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3513747_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515277_37);
 return;
 }
 case 4:
 {
-Obj v__3513746_37= co->res;
-Obj v_var = R[1];
-Obj v_ns = R[2];
-if (True == v__3513746_37) {
-coraReturn(co, v_var);
+Obj v__3515276_37= co->res;
+Obj v__3514549_37 = R[1];
+Obj v__3514550_37 = R[2];
+if (True == v__3515276_37) {
+coraReturn(co, v__3514549_37);
 return;
 } else {
-R[1] = v_ns;
+R[1] = v__3514550_37;
 saveCont(co, clofun85, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v_var);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514549_37);
 return;
 }
 }
@@ -1609,37 +1609,37 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_sexp = R[1];
-R[1] = v_sexp;
+Obj v__3514543_37 = R[1];
+R[1] = v__3514543_37;
 saveCont(co, clofun84, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514543_37);
 return;
 }
 case 1:
 {
-Obj v__3513727_37= co->res;
-Obj v__3513179_37 = R[1];
+Obj v__3515257_37= co->res;
+Obj v__3514709_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3513727_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3513179_37));
+coraCall1(co, v__3515257_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3514709_37));
 return;
 }
 case 2:
 {
-Obj v__3513726_37= co->res;
-Obj v__3513179_37 = R[1];
-R[1] = v__3513179_37;
+Obj v__3515256_37= co->res;
+Obj v__3514709_37 = R[1];
+R[1] = v__3514709_37;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3513726_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515256_37);
 return;
 }
 case 3:
 {
-Obj v__3513725_37= co->res;
-Obj v_sexp = R[1];
-Obj v__3513179_37 = v__3513725_37;
-R[1] = v__3513179_37;
+Obj v__3515255_37= co->res;
+Obj v__3514543_37 = R[1];
+Obj v__3514709_37 = v__3515255_37;
+R[1] = v__3514709_37;
 saveCont(co, clofun84, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_sexp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514543_37);
 return;
 }
 }
@@ -1649,44 +1649,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_import = R[1];
-Obj v_export = R[2];
-Obj v_body = R[3];
-Obj v__3513728_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v_import);
-R[1] = v_export;
-R[2] = v_body;
-R[3] = v__3513728_37;
+Obj v__3514545_37 = R[1];
+Obj v__3514546_37 = R[2];
+Obj v__3514547_37 = R[3];
+Obj v__3515258_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514545_37);
+R[1] = v__3514546_37;
+R[2] = v__3514547_37;
+R[3] = v__3515258_37;
 saveCont(co, clofun83, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v_import);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v__3514545_37);
 return;
 }
 case 1:
 {
-Obj v__3513738_37= co->res;
-Obj v__3513728_37 = R[1];
-Obj v__3513739_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3513738_37);
-Obj v__3513740_37 = makeCons(co->gc, v__3513739_37, Nil);
-Obj v__3513741_37 = makeCons(co->gc, v__3513728_37, v__3513740_37);
-Obj v__3513742_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513741_37);
-Obj v__3513743_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3513742_37);
-coraReturn(co, v__3513743_37);
+Obj v__3515268_37= co->res;
+Obj v__3515258_37 = R[1];
+Obj v__3515269_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515268_37);
+Obj v__3515270_37 = makeCons(co->gc, v__3515269_37, Nil);
+Obj v__3515271_37 = makeCons(co->gc, v__3515258_37, v__3515270_37);
+Obj v__3515272_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515271_37);
+Obj v__3515273_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515272_37);
+coraReturn(co, v__3515273_37);
 return;
 }
 case 2:
 {
-Obj v__3513731_37= co->res;
-Obj v_export = R[1];
-Obj v_body = R[2];
-Obj v__3513728_37 = R[3];
-Obj v__3513732_37 = makeCons(co->gc, v_export, Nil);
-Obj v__3513733_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3513732_37);
-Obj v__3513734_37 = makeCons(co->gc, v__3513733_37, Nil);
-Obj v__3513735_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3513734_37);
-Obj v__3513736_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513735_37);
-Obj v__3513737_37 = makeCons(co->gc, v__3513736_37, v_body);
-R[1] = v__3513728_37;
+Obj v__3515261_37= co->res;
+Obj v__3514546_37 = R[1];
+Obj v__3514547_37 = R[2];
+Obj v__3515258_37 = R[3];
+Obj v__3515262_37 = makeCons(co->gc, v__3514546_37, Nil);
+Obj v__3515263_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515262_37);
+Obj v__3515264_37 = makeCons(co->gc, v__3515263_37, Nil);
+Obj v__3515265_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515264_37);
+Obj v__3515266_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515265_37);
+Obj v__3515267_37 = makeCons(co->gc, v__3515266_37, v__3514547_37);
+R[1] = v__3515258_37;
 saveCont(co, clofun83, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513731_37, v__3513737_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515261_37, v__3515267_37);
 return;
 }
 }
@@ -1696,10 +1696,10 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_imp = R[1];
-Obj v__3513729_37 = makeCons(co->gc, v_imp, Nil);
-Obj v__3513730_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3513729_37);
-coraReturn(co, v__3513730_37);
+Obj v__3514548_37 = R[1];
+Obj v__3515259_37 = makeCons(co->gc, v__3514548_37, Nil);
+Obj v__3515260_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515259_37);
+coraReturn(co, v__3515260_37);
 return;
 }
 }
@@ -1709,10 +1709,10 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_data = R[1];
-Obj v_k = R[2];
+Obj v__3514541_37 = R[1];
+Obj v__3514542_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v_data, Nil, Nil, v_k);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514541_37, Nil, Nil, v__3514542_37);
 return;
 }
 }
@@ -1722,62 +1722,62 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513081_37 = R[1];
-Obj v__3513082_37 = R[2];
-Obj v__3513083_37 = R[3];
-Obj v__3513084_37 = R[4];
-Obj v__3513173_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3513083_37, v__3513081_37, v__3513082_37, v__3513084_37);
-Obj v__3513705_37 = PRIM_ISCONS(v__3513081_37);
-if (True == v__3513705_37) {
-Obj v__3513706_37 = PRIM_CAR(v__3513081_37);
-Obj v__3513707_37 = PRIM_ISCONS(v__3513706_37);
-if (True == v__3513707_37) {
-Obj v__3513708_37 = PRIM_CAR(v__3513081_37);
-Obj v__3513709_37 = PRIM_CAR(v__3513708_37);
-Obj v__3513710_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3513709_37);
-if (True == v__3513710_37) {
-Obj v__3513711_37 = PRIM_CAR(v__3513081_37);
-Obj v__3513712_37 = PRIM_CDR(v__3513711_37);
-Obj v__3513713_37 = PRIM_ISCONS(v__3513712_37);
-if (True == v__3513713_37) {
-Obj v__3513714_37 = PRIM_CAR(v__3513081_37);
-Obj v__3513715_37 = PRIM_CDR(v__3513714_37);
-Obj v__3513716_37 = PRIM_CAR(v__3513715_37);
-Obj v__3513177_37 = v__3513716_37;
-Obj v__3513717_37 = PRIM_CAR(v__3513081_37);
-Obj v__3513718_37 = PRIM_CDR(v__3513717_37);
-Obj v__3513719_37 = PRIM_CDR(v__3513718_37);
-Obj v__3513720_37 = PRIM_EQ(Nil, v__3513719_37);
-if (True == v__3513720_37) {
-Obj v__3513721_37 = PRIM_CDR(v__3513081_37);
-Obj v__3513178_37 = v__3513721_37;
-Obj v__3513722_37 = makeCons(co->gc, v__3513177_37, v__3513082_37);
+Obj v__3514531_37 = R[1];
+Obj v__3514532_37 = R[2];
+Obj v__3514533_37 = R[3];
+Obj v__3514534_37 = R[4];
+Obj v__3514703_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3514533_37, v__3514531_37, v__3514532_37, v__3514534_37);
+Obj v__3515235_37 = PRIM_ISCONS(v__3514531_37);
+if (True == v__3515235_37) {
+Obj v__3515236_37 = PRIM_CAR(v__3514531_37);
+Obj v__3515237_37 = PRIM_ISCONS(v__3515236_37);
+if (True == v__3515237_37) {
+Obj v__3515238_37 = PRIM_CAR(v__3514531_37);
+Obj v__3515239_37 = PRIM_CAR(v__3515238_37);
+Obj v__3515240_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515239_37);
+if (True == v__3515240_37) {
+Obj v__3515241_37 = PRIM_CAR(v__3514531_37);
+Obj v__3515242_37 = PRIM_CDR(v__3515241_37);
+Obj v__3515243_37 = PRIM_ISCONS(v__3515242_37);
+if (True == v__3515243_37) {
+Obj v__3515244_37 = PRIM_CAR(v__3514531_37);
+Obj v__3515245_37 = PRIM_CDR(v__3515244_37);
+Obj v__3515246_37 = PRIM_CAR(v__3515245_37);
+Obj v__3514707_37 = v__3515246_37;
+Obj v__3515247_37 = PRIM_CAR(v__3514531_37);
+Obj v__3515248_37 = PRIM_CDR(v__3515247_37);
+Obj v__3515249_37 = PRIM_CDR(v__3515248_37);
+Obj v__3515250_37 = PRIM_EQ(Nil, v__3515249_37);
+if (True == v__3515250_37) {
+Obj v__3515251_37 = PRIM_CDR(v__3514531_37);
+Obj v__3514708_37 = v__3515251_37;
+Obj v__3515252_37 = makeCons(co->gc, v__3514707_37, v__3514532_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513178_37, v__3513722_37, v__3513083_37, v__3513084_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514708_37, v__3515252_37, v__3514533_37, v__3514534_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513173_37);
+coraCall0(co, v__3514703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513173_37);
+coraCall0(co, v__3514703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513173_37);
+coraCall0(co, v__3514703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513173_37);
+coraCall0(co, v__3514703_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513173_37);
+coraCall0(co, v__3514703_37);
 return;
 }
 }
@@ -1788,37 +1788,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513174_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3513696_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513696_37) {
-Obj v__3513697_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513698_37 = PRIM_ISCONS(v__3513697_37);
-if (True == v__3513698_37) {
-Obj v__3513699_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513700_37 = PRIM_CAR(v__3513699_37);
-Obj v__3513701_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3513700_37);
-if (True == v__3513701_37) {
-Obj v__3513702_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513703_37 = PRIM_CDR(v__3513702_37);
-Obj v__3513175_37 = v__3513703_37;
-Obj v__3513704_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513176_37 = v__3513704_37;
+Obj v__3514704_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515226_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3515226_37) {
+Obj v__3515227_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515228_37 = PRIM_ISCONS(v__3515227_37);
+if (True == v__3515228_37) {
+Obj v__3515229_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515230_37 = PRIM_CAR(v__3515229_37);
+Obj v__3515231_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515230_37);
+if (True == v__3515231_37) {
+Obj v__3515232_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515233_37 = PRIM_CDR(v__3515232_37);
+Obj v__3514705_37 = v__3515233_37;
+Obj v__3515234_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514706_37 = v__3515234_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3513176_37, closureRef(R[0], 2), v__3513175_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514706_37, closureRef(R[0], 2), v__3514705_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513174_37);
+coraCall0(co, v__3514704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513174_37);
+coraCall0(co, v__3514704_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513174_37);
+coraCall0(co, v__3514704_37);
 return;
 }
 }
@@ -1835,9 +1835,9 @@ return;
 }
 case 1:
 {
-Obj v__3513695_37= co->res;
+Obj v__3515225_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3513695_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3515225_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,27 +1847,27 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514530_37 = R[1];
+R[1] = v__3514530_37;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514530_37);
 return;
 }
 case 1:
 {
-Obj v__3513693_37= co->res;
-Obj v__3513692_37 = R[1];
+Obj v__3515223_37= co->res;
+Obj v__3515222_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3513692_37, v__3513693_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515222_37, v__3515223_37);
 return;
 }
 case 2:
 {
-Obj v__3513692_37= co->res;
-Obj v_exp = R[1];
-R[1] = v__3513692_37;
+Obj v__3515222_37= co->res;
+Obj v__3514530_37 = R[1];
+R[1] = v__3515222_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514530_37);
 return;
 }
 }
@@ -1877,67 +1877,67 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_fn = R[1];
-Obj v_arglist = R[2];
-R[1] = v_arglist;
-R[2] = v_fn;
+Obj v__3514528_37 = R[1];
+Obj v__3514529_37 = R[2];
+R[1] = v__3514529_37;
+R[2] = v__3514528_37;
 saveCont(co, clofun76, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514529_37);
 return;
 }
 case 1:
 {
-Obj v__3513681_37= co->res;
-Obj v__3513680_37 = R[1];
-Obj v_fn = R[2];
-Obj v__3513682_37 = makeCons(co->gc, v__3513681_37, Nil);
-Obj v__3513683_37 = makeCons(co->gc, v__3513680_37, v__3513682_37);
-Obj v__3513684_37 = makeCons(co->gc, v_fn, v__3513683_37);
-coraReturn(co, v__3513684_37);
+Obj v__3515211_37= co->res;
+Obj v__3515210_37 = R[1];
+Obj v__3514528_37 = R[2];
+Obj v__3515212_37 = makeCons(co->gc, v__3515211_37, Nil);
+Obj v__3515213_37 = makeCons(co->gc, v__3515210_37, v__3515212_37);
+Obj v__3515214_37 = makeCons(co->gc, v__3514528_37, v__3515213_37);
+coraReturn(co, v__3515214_37);
 return;
 }
 case 2:
 {
-Obj v__3513687_37= co->res;
-Obj v__3513685_37 = R[1];
-Obj v_fn = R[2];
-Obj v__3513688_37 = makeCons(co->gc, v__3513687_37, Nil);
-Obj v__3513689_37 = makeCons(co->gc, v__3513685_37, v__3513688_37);
-Obj v__3513690_37 = makeCons(co->gc, v_fn, v__3513689_37);
-coraReturn(co, v__3513690_37);
+Obj v__3515217_37= co->res;
+Obj v__3515215_37 = R[1];
+Obj v__3514528_37 = R[2];
+Obj v__3515218_37 = makeCons(co->gc, v__3515217_37, Nil);
+Obj v__3515219_37 = makeCons(co->gc, v__3515215_37, v__3515218_37);
+Obj v__3515220_37 = makeCons(co->gc, v__3514528_37, v__3515219_37);
+coraReturn(co, v__3515220_37);
 return;
 }
 case 3:
 {
-Obj v__3513679_37= co->res;
-Obj v_arglist = R[1];
-Obj v_fn = R[2];
-if (True == v__3513679_37) {
-Obj v__3513680_37 = PRIM_CAR(v_arglist);
-R[1] = v__3513680_37;
-R[2] = v_fn;
+Obj v__3515209_37= co->res;
+Obj v__3514529_37 = R[1];
+Obj v__3514528_37 = R[2];
+if (True == v__3515209_37) {
+Obj v__3515210_37 = PRIM_CAR(v__3514529_37);
+R[1] = v__3515210_37;
+R[2] = v__3514528_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_arglist);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514529_37);
 return;
 } else {
-Obj v__3513685_37 = PRIM_CAR(v_arglist);
-Obj v__3513686_37 = PRIM_CDR(v_arglist);
-R[1] = v__3513685_37;
-R[2] = v_fn;
+Obj v__3515215_37 = PRIM_CAR(v__3514529_37);
+Obj v__3515216_37 = PRIM_CDR(v__3514529_37);
+R[1] = v__3515215_37;
+R[2] = v__3514528_37;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v_fn, v__3513686_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514528_37, v__3515216_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3513678_37= co->res;
-Obj v_arglist = R[1];
-Obj v_fn = R[2];
-R[1] = v_arglist;
-R[2] = v_fn;
+Obj v__3515208_37= co->res;
+Obj v__3514529_37 = R[1];
+Obj v__3514528_37 = R[2];
+R[1] = v__3514529_37;
+R[2] = v__3514528_37;
 saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513678_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515208_37);
 return;
 }
 }
@@ -1947,16 +1947,16 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514527_37 = R[1];
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514527_37);
 return;
 }
 case 1:
 {
-Obj v__3513676_37= co->res;
+Obj v__3515206_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3513676_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515206_37);
 return;
 }
 }
@@ -1966,50 +1966,50 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513076_37 = R[1];
-Obj v__3513656_37 = primIsSymbol(v__3513076_37);
-if (True == v__3513656_37) {
-Obj v__3513657_37 = makeCons(co->gc, v__3513076_37, Nil);
-Obj v__3513658_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513657_37);
-coraReturn(co, v__3513658_37);
+Obj v__3514518_37 = R[1];
+Obj v__3515186_37 = primIsSymbol(v__3514518_37);
+if (True == v__3515186_37) {
+Obj v__3515187_37 = makeCons(co->gc, v__3514518_37, Nil);
+Obj v__3515188_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515187_37);
+coraReturn(co, v__3515188_37);
 return;
 } else {
-Obj v__3513169_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3513076_37);
-Obj v__3513665_37 = PRIM_ISCONS(v__3513076_37);
-if (True == v__3513665_37) {
-Obj v__3513666_37 = PRIM_CAR(v__3513076_37);
-Obj v__3513667_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3513666_37);
-if (True == v__3513667_37) {
-Obj v__3513668_37 = PRIM_CDR(v__3513076_37);
-Obj v__3513669_37 = PRIM_ISCONS(v__3513668_37);
-if (True == v__3513669_37) {
-Obj v__3513670_37 = PRIM_CDR(v__3513076_37);
-Obj v__3513671_37 = PRIM_CAR(v__3513670_37);
-Obj v__3513172_37 = v__3513671_37;
-Obj v__3513672_37 = PRIM_CDR(v__3513076_37);
-Obj v__3513673_37 = PRIM_CDR(v__3513672_37);
-Obj v__3513674_37 = PRIM_EQ(Nil, v__3513673_37);
-if (True == v__3513674_37) {
-coraReturn(co, v__3513172_37);
+Obj v__3514699_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3514518_37);
+Obj v__3515195_37 = PRIM_ISCONS(v__3514518_37);
+if (True == v__3515195_37) {
+Obj v__3515196_37 = PRIM_CAR(v__3514518_37);
+Obj v__3515197_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515196_37);
+if (True == v__3515197_37) {
+Obj v__3515198_37 = PRIM_CDR(v__3514518_37);
+Obj v__3515199_37 = PRIM_ISCONS(v__3515198_37);
+if (True == v__3515199_37) {
+Obj v__3515200_37 = PRIM_CDR(v__3514518_37);
+Obj v__3515201_37 = PRIM_CAR(v__3515200_37);
+Obj v__3514702_37 = v__3515201_37;
+Obj v__3515202_37 = PRIM_CDR(v__3514518_37);
+Obj v__3515203_37 = PRIM_CDR(v__3515202_37);
+Obj v__3515204_37 = PRIM_EQ(Nil, v__3515203_37);
+if (True == v__3515204_37) {
+coraReturn(co, v__3514702_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3514699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3514699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3514699_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513169_37);
+coraCall0(co, v__3514699_37);
 return;
 }
 }
@@ -2021,15 +2021,15 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513659_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513659_37) {
-Obj v__3513660_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513170_37 = v__3513660_37;
-Obj v__3513661_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513171_37 = v__3513661_37;
-Obj v__3513662_37 = makeCons(co->gc, v__3513170_37, v__3513171_37);
+Obj v__3515189_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515189_37) {
+Obj v__3515190_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514700_37 = v__3515190_37;
+Obj v__3515191_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514701_37 = v__3515191_37;
+Obj v__3515192_37 = makeCons(co->gc, v__3514700_37, v__3514701_37);
 saveCont(co, clofun73, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3513662_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3515192_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2038,9 +2038,9 @@ return;
 }
 case 1:
 {
-Obj v__3513663_37= co->res;
-Obj v__3513664_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3513663_37);
-coraReturn(co, v__3513664_37);
+Obj v__3515193_37= co->res;
+Obj v__3515194_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515193_37);
+coraReturn(co, v__3515194_37);
 return;
 }
 }
@@ -2050,10 +2050,10 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513654_37 = PRIM_CDR(v_exp);
+Obj v__3514517_37 = R[1];
+Obj v__3515184_37 = PRIM_CDR(v__3514517_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513654_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515184_37);
 return;
 }
 }
@@ -2063,25 +2063,25 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513072_37 = R[1];
-Obj v__3513162_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3513072_37);
-Obj v__3513649_37 = PRIM_ISCONS(v__3513072_37);
-if (True == v__3513649_37) {
-Obj v__3513650_37 = PRIM_CAR(v__3513072_37);
-Obj v__3513168_37 = v__3513650_37;
-Obj v__3513651_37 = PRIM_CDR(v__3513072_37);
-Obj v__3513652_37 = PRIM_EQ(Nil, v__3513651_37);
-if (True == v__3513652_37) {
-coraReturn(co, v__3513168_37);
+Obj v__3514509_37 = R[1];
+Obj v__3514692_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3514509_37);
+Obj v__3515179_37 = PRIM_ISCONS(v__3514509_37);
+if (True == v__3515179_37) {
+Obj v__3515180_37 = PRIM_CAR(v__3514509_37);
+Obj v__3514698_37 = v__3515180_37;
+Obj v__3515181_37 = PRIM_CDR(v__3514509_37);
+Obj v__3515182_37 = PRIM_EQ(Nil, v__3515181_37);
+if (True == v__3515182_37) {
+coraReturn(co, v__3514698_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513162_37);
+coraCall0(co, v__3514692_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513162_37);
+coraCall0(co, v__3514692_37);
 return;
 }
 }
@@ -2092,39 +2092,39 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513163_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
-Obj v__3513637_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513637_37) {
-Obj v__3513638_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513166_37 = v__3513638_37;
-Obj v__3513639_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513640_37 = PRIM_ISCONS(v__3513639_37);
-if (True == v__3513640_37) {
-Obj v__3513641_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513642_37 = PRIM_CAR(v__3513641_37);
-Obj v__3513167_37 = v__3513642_37;
-Obj v__3513643_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513644_37 = PRIM_CDR(v__3513643_37);
-Obj v__3513645_37 = PRIM_EQ(Nil, v__3513644_37);
-if (True == v__3513645_37) {
-Obj v__3513646_37 = makeCons(co->gc, v__3513167_37, Nil);
-Obj v__3513647_37 = makeCons(co->gc, v__3513166_37, v__3513646_37);
-Obj v__3513648_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513647_37);
-coraReturn(co, v__3513648_37);
+Obj v__3514693_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
+Obj v__3515167_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515167_37) {
+Obj v__3515168_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514696_37 = v__3515168_37;
+Obj v__3515169_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515170_37 = PRIM_ISCONS(v__3515169_37);
+if (True == v__3515170_37) {
+Obj v__3515171_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515172_37 = PRIM_CAR(v__3515171_37);
+Obj v__3514697_37 = v__3515172_37;
+Obj v__3515173_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515174_37 = PRIM_CDR(v__3515173_37);
+Obj v__3515175_37 = PRIM_EQ(Nil, v__3515174_37);
+if (True == v__3515175_37) {
+Obj v__3515176_37 = makeCons(co->gc, v__3514697_37, Nil);
+Obj v__3515177_37 = makeCons(co->gc, v__3514696_37, v__3515176_37);
+Obj v__3515178_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515177_37);
+coraReturn(co, v__3515178_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513163_37);
+coraCall0(co, v__3514693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513163_37);
+coraCall0(co, v__3514693_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513163_37);
+coraCall0(co, v__3514693_37);
 return;
 }
 }
@@ -2135,15 +2135,15 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513630_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513630_37) {
-Obj v__3513631_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513164_37 = v__3513631_37;
-Obj v__3513632_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513165_37 = v__3513632_37;
-R[1] = v__3513164_37;
+Obj v__3515160_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515160_37) {
+Obj v__3515161_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514694_37 = v__3515161_37;
+Obj v__3515162_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514695_37 = v__3515162_37;
+R[1] = v__3514694_37;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3513165_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514695_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2153,12 +2153,12 @@ return;
 }
 case 1:
 {
-Obj v__3513633_37= co->res;
-Obj v__3513164_37 = R[1];
-Obj v__3513634_37 = makeCons(co->gc, v__3513633_37, Nil);
-Obj v__3513635_37 = makeCons(co->gc, v__3513164_37, v__3513634_37);
-Obj v__3513636_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3513635_37);
-coraReturn(co, v__3513636_37);
+Obj v__3515163_37= co->res;
+Obj v__3514694_37 = R[1];
+Obj v__3515164_37 = makeCons(co->gc, v__3515163_37, Nil);
+Obj v__3515165_37 = makeCons(co->gc, v__3514694_37, v__3515164_37);
+Obj v__3515166_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515165_37);
+coraReturn(co, v__3515166_37);
 return;
 }
 }
@@ -2168,23 +2168,23 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514508_37 = R[1];
 saveCont(co, clofun68, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514508_37);
 return;
 }
 case 1:
 {
-Obj v__3513628_37= co->res;
+Obj v__3515158_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3513628_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515158_37);
 return;
 }
 case 2:
 {
-Obj v__3513627_37= co->res;
+Obj v__3515157_37= co->res;
 saveCont(co, clofun68, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3513627_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515157_37);
 return;
 }
 }
@@ -2194,8 +2194,8 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-coraReturn(co, v_x);
+Obj v__3514507_37 = R[1];
+coraReturn(co, v__3514507_37);
 return;
 }
 }
@@ -2205,9 +2205,9 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514506_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v_exp);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514506_37);
 return;
 }
 }
@@ -2217,90 +2217,90 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514502_37 = R[1];
+R[1] = v__3514502_37;
 saveCont(co, clofun65, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514502_37);
 return;
 }
 case 1:
 {
-Obj v__3513619_37= co->res;
-Obj v__3513161_37 = R[1];
-Obj v__3513617_37 = R[2];
-Obj v__3513620_37 = makeCons(co->gc, v__3513619_37, Nil);
-Obj v__3513621_37 = makeCons(co->gc, v__3513161_37, v__3513620_37);
-Obj v__3513622_37 = makeCons(co->gc, v__3513617_37, v__3513621_37);
-Obj v__3513623_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3513622_37);
-coraReturn(co, v__3513623_37);
+Obj v__3515149_37= co->res;
+Obj v__3514691_37 = R[1];
+Obj v__3515147_37 = R[2];
+Obj v__3515150_37 = makeCons(co->gc, v__3515149_37, Nil);
+Obj v__3515151_37 = makeCons(co->gc, v__3514691_37, v__3515150_37);
+Obj v__3515152_37 = makeCons(co->gc, v__3515147_37, v__3515151_37);
+Obj v__3515153_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515152_37);
+coraReturn(co, v__3515153_37);
 return;
 }
 case 2:
 {
-Obj v__3513618_37= co->res;
-Obj v__3513159_37 = R[1];
-Obj v__3513161_37 = R[2];
-Obj v__3513617_37 = R[3];
-R[1] = v__3513161_37;
-R[2] = v__3513617_37;
+Obj v__3515148_37= co->res;
+Obj v__3514689_37 = R[1];
+Obj v__3514691_37 = R[2];
+Obj v__3515147_37 = R[3];
+R[1] = v__3514691_37;
+R[2] = v__3515147_37;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3513618_37, v__3513159_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3515148_37, v__3514689_37);
 return;
 }
 case 3:
 {
-Obj v__3513617_37= co->res;
-Obj v__3513159_37 = R[1];
-Obj v__3513161_37 = R[2];
-R[1] = v__3513159_37;
-R[2] = v__3513161_37;
-R[3] = v__3513617_37;
+Obj v__3515147_37= co->res;
+Obj v__3514689_37 = R[1];
+Obj v__3514691_37 = R[2];
+R[1] = v__3514689_37;
+R[2] = v__3514691_37;
+R[3] = v__3515147_37;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3513161_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514691_37);
 return;
 }
 case 4:
 {
-Obj v__3513616_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513159_37 = R[2];
-Obj v__3513161_37 = v__3513616_37;
-R[1] = v__3513159_37;
-R[2] = v__3513161_37;
+Obj v__3515146_37= co->res;
+Obj v__3514502_37 = R[1];
+Obj v__3514689_37 = R[2];
+Obj v__3514691_37 = v__3515146_37;
+R[1] = v__3514689_37;
+R[2] = v__3514691_37;
 saveCont(co, clofun65, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514502_37);
 return;
 }
 case 5:
 {
-Obj v__3513615_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513159_37 = R[2];
-Obj v__3513160_37 = v__3513615_37;
-R[1] = v_exp;
-R[2] = v__3513159_37;
+Obj v__3515145_37= co->res;
+Obj v__3514502_37 = R[1];
+Obj v__3514689_37 = R[2];
+Obj v__3514690_37 = v__3515145_37;
+R[1] = v__3514502_37;
+R[2] = v__3514689_37;
 saveCont(co, clofun65, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513160_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514690_37);
 return;
 }
 case 6:
 {
-Obj v__3513614_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513159_37 = v__3513614_37;
-R[1] = v_exp;
-R[2] = v__3513159_37;
+Obj v__3515144_37= co->res;
+Obj v__3514502_37 = R[1];
+Obj v__3514689_37 = v__3515144_37;
+R[1] = v__3514502_37;
+R[2] = v__3514689_37;
 saveCont(co, clofun65, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3513159_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514689_37);
 return;
 }
 case 7:
 {
-Obj v__3513613_37= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3515143_37= co->res;
+Obj v__3514502_37 = R[1];
+R[1] = v__3514502_37;
 saveCont(co, clofun65, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3513613_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515143_37);
 return;
 }
 }
@@ -2310,26 +2310,26 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_n = R[1];
-Obj v__3513607_37 = PRIM_EQ(v_n, MAKE_NUMBER(0));
-if (True == v__3513607_37) {
+Obj v__3514501_37 = R[1];
+Obj v__3515137_37 = PRIM_EQ(v__3514501_37, MAKE_NUMBER(0));
+if (True == v__3515137_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3513608_37 = primGenSym(co);
-Obj v__3513609_37 = PRIM_SUB(v_n, MAKE_NUMBER(1));
-R[1] = v__3513608_37;
+Obj v__3515138_37 = primGenSym(co);
+Obj v__3515139_37 = PRIM_SUB(v__3514501_37, MAKE_NUMBER(1));
+R[1] = v__3515138_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3513609_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515139_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513610_37= co->res;
-Obj v__3513608_37 = R[1];
-Obj v__3513611_37 = makeCons(co->gc, v__3513608_37, v__3513610_37);
-coraReturn(co, v__3513611_37);
+Obj v__3515140_37= co->res;
+Obj v__3515138_37 = R[1];
+Obj v__3515141_37 = makeCons(co->gc, v__3515138_37, v__3515140_37);
+coraReturn(co, v__3515141_37);
 return;
 }
 }
@@ -2339,52 +2339,52 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_rules = R[1];
+Obj v__3514495_37 = R[1];
 saveCont(co, clofun63, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v_rules);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514495_37);
 return;
 }
 case 1:
 {
-Obj v__3513604_37= co->res;
-Obj v__3513158_37 = R[1];
-Obj v__3513605_37 = primNot(v__3513604_37);
-if (True == v__3513605_37) {
+Obj v__3515134_37= co->res;
+Obj v__3514688_37 = R[1];
+Obj v__3515135_37 = primNot(v__3515134_37);
+if (True == v__3515135_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3513158_37);
+coraReturn(co, v__3514688_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3513603_37= co->res;
-Obj v__3513158_37 = R[1];
-R[1] = v__3513158_37;
+Obj v__3515133_37= co->res;
+Obj v__3514688_37 = R[1];
+R[1] = v__3514688_37;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513603_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515133_37);
 return;
 }
 case 3:
 {
-Obj v__3513598_37= co->res;
-Obj v__3513157_37 = v__3513598_37;
-Obj v__3513599_37 = PRIM_CAR(v__3513157_37);
-Obj v__3513158_37 = v__3513599_37;
-Obj v__3513602_37 = PRIM_CDR(v__3513157_37);
-R[1] = v__3513158_37;
+Obj v__3515128_37= co->res;
+Obj v__3514687_37 = v__3515128_37;
+Obj v__3515129_37 = PRIM_CAR(v__3514687_37);
+Obj v__3514688_37 = v__3515129_37;
+Obj v__3515132_37 = PRIM_CDR(v__3514687_37);
+R[1] = v__3514688_37;
 saveCont(co, clofun63, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3513158_37), v__3513602_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3514688_37), v__3515132_37);
 return;
 }
 case 4:
 {
-Obj v__3513596_37= co->res;
-Obj v__3513156_37 = v__3513596_37;
+Obj v__3515126_37= co->res;
+Obj v__3514686_37 = v__3515126_37;
 saveCont(co, clofun63, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3513156_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3514686_37);
 return;
 }
 }
@@ -2394,10 +2394,10 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513600_37 = PRIM_EQ(closureRef(R[0], 0), v_x);
-Obj v__3513601_37 = primNot(v__3513600_37);
-coraReturn(co, v__3513601_37);
+Obj v__3514500_37 = R[1];
+Obj v__3515130_37 = PRIM_EQ(closureRef(R[0], 0), v__3514500_37);
+Obj v__3515131_37 = primNot(v__3515130_37);
+coraReturn(co, v__3515131_37);
 return;
 }
 }
@@ -2407,10 +2407,10 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513597_37 = PRIM_CDR(v_x);
+Obj v__3514497_37 = R[1];
+Obj v__3515127_37 = PRIM_CDR(v__3514497_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3513597_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515127_37);
 return;
 }
 }
@@ -2420,27 +2420,27 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l1 = R[1];
-Obj v_l2 = R[2];
-Obj v__3513590_37 = PRIM_EQ(v_l1, Nil);
-if (True == v__3513590_37) {
-coraReturn(co, v_l2);
+Obj v__3514493_37 = R[1];
+Obj v__3514494_37 = R[2];
+Obj v__3515120_37 = PRIM_EQ(v__3514493_37, Nil);
+if (True == v__3515120_37) {
+coraReturn(co, v__3514494_37);
 return;
 } else {
-Obj v__3513591_37 = PRIM_CAR(v_l1);
-Obj v__3513592_37 = PRIM_CDR(v_l1);
-R[1] = v__3513591_37;
+Obj v__3515121_37 = PRIM_CAR(v__3514493_37);
+Obj v__3515122_37 = PRIM_CDR(v__3514493_37);
+R[1] = v__3515121_37;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3513592_37, v_l2);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515122_37, v__3514494_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513593_37= co->res;
-Obj v__3513591_37 = R[1];
-Obj v__3513594_37 = makeCons(co->gc, v__3513591_37, v__3513593_37);
-coraReturn(co, v__3513594_37);
+Obj v__3515123_37= co->res;
+Obj v__3515121_37 = R[1];
+Obj v__3515124_37 = makeCons(co->gc, v__3515121_37, v__3515123_37);
+coraReturn(co, v__3515124_37);
 return;
 }
 }
@@ -2450,10 +2450,10 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_fn = R[1];
-Obj v_l = R[2];
+Obj v__3514491_37 = R[1];
+Obj v__3514492_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v_fn, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514491_37, v__3514492_37);
 return;
 }
 }
@@ -2463,41 +2463,41 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_fn = R[2];
-Obj v_l = R[3];
-Obj v__3513581_37 = PRIM_ISCONS(v_l);
-if (True == v__3513581_37) {
-Obj v__3513582_37 = PRIM_CAR(v_l);
-R[1] = v_l;
-R[2] = v_res;
-R[3] = v_fn;
+Obj v__3514488_37 = R[1];
+Obj v__3514489_37 = R[2];
+Obj v__3514490_37 = R[3];
+Obj v__3515111_37 = PRIM_ISCONS(v__3514490_37);
+if (True == v__3515111_37) {
+Obj v__3515112_37 = PRIM_CAR(v__3514490_37);
+R[1] = v__3514490_37;
+R[2] = v__3514488_37;
+R[3] = v__3514489_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, v_fn, v__3513582_37);
+coraCall1(co, v__3514489_37, v__3515112_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514488_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513583_37= co->res;
-Obj v_l = R[1];
-Obj v_res = R[2];
-Obj v_fn = R[3];
-if (True == v__3513583_37) {
-Obj v__3513584_37 = PRIM_CAR(v_l);
-Obj v__3513585_37 = makeCons(co->gc, v__3513584_37, v_res);
-Obj v__3513586_37 = PRIM_CDR(v_l);
+Obj v__3515113_37= co->res;
+Obj v__3514490_37 = R[1];
+Obj v__3514488_37 = R[2];
+Obj v__3514489_37 = R[3];
+if (True == v__3515113_37) {
+Obj v__3515114_37 = PRIM_CAR(v__3514490_37);
+Obj v__3515115_37 = makeCons(co->gc, v__3515114_37, v__3514488_37);
+Obj v__3515116_37 = PRIM_CDR(v__3514490_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3513585_37, v_fn, v__3513586_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515115_37, v__3514489_37, v__3515116_37);
 return;
 } else {
-Obj v__3513587_37 = PRIM_CDR(v_l);
+Obj v__3515117_37 = PRIM_CDR(v__3514490_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v_res, v_fn, v__3513587_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514488_37, v__3514489_37, v__3515117_37);
 return;
 }
 }
@@ -2508,9 +2508,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l = R[1];
+Obj v__3514487_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v_l);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514487_37);
 return;
 }
 }
@@ -2520,17 +2520,17 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_i = R[1];
-Obj v_l = R[2];
-Obj v__3513576_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513576_37) {
-coraReturn(co, v_i);
+Obj v__3514485_37 = R[1];
+Obj v__3514486_37 = R[2];
+Obj v__3515106_37 = PRIM_EQ(v__3514486_37, Nil);
+if (True == v__3515106_37) {
+coraReturn(co, v__3514485_37);
 return;
 } else {
-Obj v__3513577_37 = PRIM_ADD(v_i, MAKE_NUMBER(1));
-Obj v__3513578_37 = PRIM_CDR(v_l);
+Obj v__3515107_37 = PRIM_ADD(v__3514485_37, MAKE_NUMBER(1));
+Obj v__3515108_37 = PRIM_CDR(v__3514486_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3513577_37, v__3513578_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515107_37, v__3515108_37);
 return;
 }
 }
@@ -2541,37 +2541,37 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_rules = R[2];
-R[1] = v_res;
-R[2] = v_rules;
+Obj v__3514483_37 = R[1];
+Obj v__3514484_37 = R[2];
+R[1] = v__3514483_37;
+R[2] = v__3514484_37;
 saveCont(co, clofun55, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514484_37);
 return;
 }
 case 1:
 {
-Obj v__3513574_37= co->res;
-Obj v__3513573_37 = R[1];
+Obj v__3515104_37= co->res;
+Obj v__3515103_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3513573_37, v__3513574_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515103_37, v__3515104_37);
 return;
 }
 case 2:
 {
-Obj v__3513571_37= co->res;
-Obj v_res = R[1];
-Obj v_rules = R[2];
-if (True == v__3513571_37) {
+Obj v__3515101_37= co->res;
+Obj v__3514483_37 = R[1];
+Obj v__3514484_37 = R[2];
+if (True == v__3515101_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514483_37);
 return;
 } else {
-Obj v__3513572_37 = PRIM_CAR(v_rules);
-Obj v__3513573_37 = makeCons(co->gc, v__3513572_37, v_res);
-R[1] = v__3513573_37;
+Obj v__3515102_37 = PRIM_CAR(v__3514484_37);
+Obj v__3515103_37 = makeCons(co->gc, v__3515102_37, v__3514483_37);
+R[1] = v__3515103_37;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514484_37);
 return;
 }
 }
@@ -2582,9 +2582,9 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_input = R[1];
+Obj v__3514482_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v_input, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514482_37, Nil, Nil);
 return;
 }
 }
@@ -2594,106 +2594,106 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_input = R[1];
-Obj v_current = R[2];
-Obj v_result = R[3];
-Obj v__3513518_37 = PRIM_EQ(Nil, v_input);
-if (True == v__3513518_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_result);
-return;
-} else {
-Obj v__3513145_37 = makeNative(co->gc, 3, clofun52, 0, 3, v_input, v_current, v_result);
-Obj v__3513536_37 = PRIM_ISCONS(v_input);
-if (True == v__3513536_37) {
-Obj v__3513537_37 = PRIM_CAR(v_input);
-Obj v__3513538_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513537_37);
-if (True == v__3513538_37) {
-Obj v__3513539_37 = PRIM_CDR(v_input);
-Obj v__3513540_37 = PRIM_ISCONS(v__3513539_37);
-if (True == v__3513540_37) {
-Obj v__3513541_37 = PRIM_CDR(v_input);
-Obj v__3513542_37 = PRIM_CAR(v__3513541_37);
-Obj v__3513152_37 = v__3513542_37;
-Obj v__3513543_37 = PRIM_CDR(v_input);
-Obj v__3513544_37 = PRIM_CDR(v__3513543_37);
-Obj v__3513545_37 = PRIM_ISCONS(v__3513544_37);
-if (True == v__3513545_37) {
-Obj v__3513546_37 = PRIM_CDR(v_input);
-Obj v__3513547_37 = PRIM_CDR(v__3513546_37);
-Obj v__3513548_37 = PRIM_CAR(v__3513547_37);
-Obj v__3513549_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3513548_37);
-if (True == v__3513549_37) {
-Obj v__3513550_37 = PRIM_CDR(v_input);
-Obj v__3513551_37 = PRIM_CDR(v__3513550_37);
-Obj v__3513552_37 = PRIM_CDR(v__3513551_37);
-Obj v__3513553_37 = PRIM_ISCONS(v__3513552_37);
-if (True == v__3513553_37) {
-Obj v__3513554_37 = PRIM_CDR(v_input);
-Obj v__3513555_37 = PRIM_CDR(v__3513554_37);
-Obj v__3513556_37 = PRIM_CDR(v__3513555_37);
-Obj v__3513557_37 = PRIM_CAR(v__3513556_37);
-Obj v__3513153_37 = v__3513557_37;
-Obj v__3513558_37 = PRIM_CDR(v_input);
-Obj v__3513559_37 = PRIM_CDR(v__3513558_37);
-Obj v__3513560_37 = PRIM_CDR(v__3513559_37);
-Obj v__3513561_37 = PRIM_CDR(v__3513560_37);
-Obj v__3513154_37 = v__3513561_37;
-R[1] = v__3513152_37;
-R[2] = v__3513153_37;
-R[3] = v_result;
-R[4] = v__3513154_37;
+Obj v__3514457_37 = R[1];
+Obj v__3514458_37 = R[2];
+Obj v__3514459_37 = R[3];
+Obj v__3515048_37 = PRIM_EQ(Nil, v__3514457_37);
+if (True == v__3515048_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514459_37);
+return;
+} else {
+Obj v__3514675_37 = makeNative(co->gc, 3, clofun52, 0, 3, v__3514457_37, v__3514458_37, v__3514459_37);
+Obj v__3515066_37 = PRIM_ISCONS(v__3514457_37);
+if (True == v__3515066_37) {
+Obj v__3515067_37 = PRIM_CAR(v__3514457_37);
+Obj v__3515068_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515067_37);
+if (True == v__3515068_37) {
+Obj v__3515069_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515070_37 = PRIM_ISCONS(v__3515069_37);
+if (True == v__3515070_37) {
+Obj v__3515071_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515072_37 = PRIM_CAR(v__3515071_37);
+Obj v__3514682_37 = v__3515072_37;
+Obj v__3515073_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515074_37 = PRIM_CDR(v__3515073_37);
+Obj v__3515075_37 = PRIM_ISCONS(v__3515074_37);
+if (True == v__3515075_37) {
+Obj v__3515076_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515077_37 = PRIM_CDR(v__3515076_37);
+Obj v__3515078_37 = PRIM_CAR(v__3515077_37);
+Obj v__3515079_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3515078_37);
+if (True == v__3515079_37) {
+Obj v__3515080_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515081_37 = PRIM_CDR(v__3515080_37);
+Obj v__3515082_37 = PRIM_CDR(v__3515081_37);
+Obj v__3515083_37 = PRIM_ISCONS(v__3515082_37);
+if (True == v__3515083_37) {
+Obj v__3515084_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515085_37 = PRIM_CDR(v__3515084_37);
+Obj v__3515086_37 = PRIM_CDR(v__3515085_37);
+Obj v__3515087_37 = PRIM_CAR(v__3515086_37);
+Obj v__3514683_37 = v__3515087_37;
+Obj v__3515088_37 = PRIM_CDR(v__3514457_37);
+Obj v__3515089_37 = PRIM_CDR(v__3515088_37);
+Obj v__3515090_37 = PRIM_CDR(v__3515089_37);
+Obj v__3515091_37 = PRIM_CDR(v__3515090_37);
+Obj v__3514684_37 = v__3515091_37;
+R[1] = v__3514682_37;
+R[2] = v__3514683_37;
+R[3] = v__3514459_37;
+R[4] = v__3514684_37;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_current);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514458_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513145_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513145_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513145_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513145_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513145_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513145_37);
+coraCall0(co, v__3514675_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513562_37= co->res;
-Obj v__3513152_37 = R[1];
-Obj v__3513153_37 = R[2];
-Obj v_result = R[3];
-Obj v__3513154_37 = R[4];
-Obj v__3513563_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3513562_37);
-Obj v__3513155_37 = v__3513563_37;
-Obj v__3513564_37 = makeCons(co->gc, v__3513152_37, Nil);
-Obj v__3513565_37 = makeCons(co->gc, v__3513153_37, v__3513564_37);
-Obj v__3513566_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3513565_37);
-Obj v__3513567_37 = makeCons(co->gc, v__3513155_37, v_result);
-Obj v__3513568_37 = makeCons(co->gc, v__3513566_37, v__3513567_37);
+Obj v__3515092_37= co->res;
+Obj v__3514682_37 = R[1];
+Obj v__3514683_37 = R[2];
+Obj v__3514459_37 = R[3];
+Obj v__3514684_37 = R[4];
+Obj v__3515093_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515092_37);
+Obj v__3514685_37 = v__3515093_37;
+Obj v__3515094_37 = makeCons(co->gc, v__3514682_37, Nil);
+Obj v__3515095_37 = makeCons(co->gc, v__3514683_37, v__3515094_37);
+Obj v__3515096_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3515095_37);
+Obj v__3515097_37 = makeCons(co->gc, v__3514685_37, v__3514459_37);
+Obj v__3515098_37 = makeCons(co->gc, v__3515096_37, v__3515097_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513154_37, Nil, v__3513568_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514684_37, Nil, v__3515098_37);
 return;
 }
 }
@@ -2703,53 +2703,53 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513146_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3513523_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513523_37) {
-Obj v__3513524_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513525_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3513524_37);
-if (True == v__3513525_37) {
-Obj v__3513526_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513527_37 = PRIM_ISCONS(v__3513526_37);
-if (True == v__3513527_37) {
-Obj v__3513528_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513529_37 = PRIM_CAR(v__3513528_37);
-Obj v__3513149_37 = v__3513529_37;
-Obj v__3513530_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513531_37 = PRIM_CDR(v__3513530_37);
-Obj v__3513150_37 = v__3513531_37;
-R[1] = v__3513149_37;
-R[2] = v__3513150_37;
+Obj v__3514676_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515053_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515053_37) {
+Obj v__3515054_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515055_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515054_37);
+if (True == v__3515055_37) {
+Obj v__3515056_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515057_37 = PRIM_ISCONS(v__3515056_37);
+if (True == v__3515057_37) {
+Obj v__3515058_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515059_37 = PRIM_CAR(v__3515058_37);
+Obj v__3514679_37 = v__3515059_37;
+Obj v__3515060_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515061_37 = PRIM_CDR(v__3515060_37);
+Obj v__3514680_37 = v__3515061_37;
+R[1] = v__3514679_37;
+R[2] = v__3514680_37;
 saveCont(co, clofun52, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513146_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513146_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3513146_37);
+coraCall0(co, v__3514676_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513532_37= co->res;
-Obj v__3513149_37 = R[1];
-Obj v__3513150_37 = R[2];
-Obj v__3513533_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3513532_37);
-Obj v__3513151_37 = v__3513533_37;
-Obj v__3513534_37 = makeCons(co->gc, v__3513151_37, closureRef(R[0], 2));
-Obj v__3513535_37 = makeCons(co->gc, v__3513149_37, v__3513534_37);
+Obj v__3515062_37= co->res;
+Obj v__3514679_37 = R[1];
+Obj v__3514680_37 = R[2];
+Obj v__3515063_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515062_37);
+Obj v__3514681_37 = v__3515063_37;
+Obj v__3515064_37 = makeCons(co->gc, v__3514681_37, closureRef(R[0], 2));
+Obj v__3515065_37 = makeCons(co->gc, v__3514679_37, v__3515064_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513150_37, Nil, v__3513535_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514680_37, Nil, v__3515065_37);
 return;
 }
 }
@@ -2759,15 +2759,15 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513519_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3513519_37) {
-Obj v__3513520_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3513147_37 = v__3513520_37;
-Obj v__3513521_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3513148_37 = v__3513521_37;
-Obj v__3513522_37 = makeCons(co->gc, v__3513147_37, closureRef(R[0], 1));
+Obj v__3515049_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515049_37) {
+Obj v__3515050_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514677_37 = v__3515050_37;
+Obj v__3515051_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514678_37 = v__3515051_37;
+Obj v__3515052_37 = makeCons(co->gc, v__3514677_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3513148_37, v__3513522_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514678_37, v__3515052_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2782,9 +2782,9 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514456_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514456_37);
 return;
 }
 }
@@ -2794,37 +2794,37 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514453_37 = R[1];
+R[1] = v__3514453_37;
 saveCont(co, clofun49, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514453_37);
 return;
 }
 case 1:
 {
-Obj v__3513515_37= co->res;
-Obj v__3513144_37 = R[1];
+Obj v__3515045_37= co->res;
+Obj v__3514674_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513515_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3513144_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515045_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3514674_37));
 return;
 }
 case 2:
 {
-Obj v__3513514_37= co->res;
-Obj v__3513144_37 = R[1];
-R[1] = v__3513144_37;
+Obj v__3515044_37= co->res;
+Obj v__3514674_37 = R[1];
+R[1] = v__3514674_37;
 saveCont(co, clofun49, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3513514_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3515044_37);
 return;
 }
 case 3:
 {
-Obj v__3513513_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513144_37 = v__3513513_37;
-R[1] = v__3513144_37;
+Obj v__3515043_37= co->res;
+Obj v__3514453_37 = R[1];
+Obj v__3514674_37 = v__3515043_37;
+R[1] = v__3514674_37;
 saveCont(co, clofun49, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514453_37);
 return;
 }
 }
@@ -2834,9 +2834,9 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_value = R[1];
+Obj v__3514455_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v_value, closureRef(R[0], 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3514455_37, closureRef(R[0], 0));
 return;
 }
 }
@@ -2846,25 +2846,25 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_value = R[1];
-Obj v_k = R[2];
-Obj v__3513139_37 = makeNative(co->gc, 2, clofun46, 1, 2, v_k, v_value);
-Obj v__3513509_37 = PRIM_ISCONS(v_value);
-if (True == v__3513509_37) {
-Obj v__3513510_37 = PRIM_CAR(v_value);
-Obj v__3513511_37 = PRIM_EQ(v__3513510_37, getBinding(co, packageID, 153).name);
-if (True == v__3513511_37) {
+Obj v__3514448_37 = R[1];
+Obj v__3514449_37 = R[2];
+Obj v__3514669_37 = makeNative(co->gc, 2, clofun46, 1, 2, v__3514449_37, v__3514448_37);
+Obj v__3515039_37 = PRIM_ISCONS(v__3514448_37);
+if (True == v__3515039_37) {
+Obj v__3515040_37 = PRIM_CAR(v__3514448_37);
+Obj v__3515041_37 = PRIM_EQ(v__3515040_37, getBinding(co, packageID, 153).name);
+if (True == v__3515041_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513139_37, True);
+coraCall1(co, v__3514669_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513139_37, False);
+coraCall1(co, v__3514669_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513139_37, False);
+coraCall1(co, v__3514669_37, False);
 return;
 }
 }
@@ -2875,14 +2875,14 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513138_37 = R[1];
-if (True == v__3513138_37) {
+Obj v__3514668_37 = R[1];
+if (True == v__3514668_37) {
 saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513142_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-R[1] = v__3513142_37;
+Obj v__3514672_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+R[1] = v__3514672_37;
 saveCont(co, clofun46, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 1));
 return;
@@ -2890,30 +2890,30 @@ return;
 }
 case 1:
 {
-Obj v__3513495_37= co->res;
+Obj v__3515025_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513495_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515025_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
 return;
 }
 case 2:
 {
-Obj v__3513506_37= co->res;
-Obj v__3513142_37 = R[1];
-if (True == v__3513506_37) {
-Obj v__3513507_37 = primIsSymbol(closureRef(R[0], 1));
-Obj v__3513508_37 = primNot(v__3513507_37);
-if (True == v__3513508_37) {
+Obj v__3515036_37= co->res;
+Obj v__3514672_37 = R[1];
+if (True == v__3515036_37) {
+Obj v__3515037_37 = primIsSymbol(closureRef(R[0], 1));
+Obj v__3515038_37 = primNot(v__3515037_37);
+if (True == v__3515038_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513142_37, True);
+coraCall1(co, v__3514672_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513142_37, False);
+coraCall1(co, v__3514672_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513142_37, False);
+coraCall1(co, v__3514672_37, False);
 return;
 }
 }
@@ -2924,29 +2924,29 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513141_37 = R[1];
-if (True == v__3513141_37) {
+Obj v__3514671_37 = R[1];
+if (True == v__3514671_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-Obj v__3513500_37 = primGenSym(co);
-Obj v__3513143_37 = v__3513500_37;
-R[1] = v__3513143_37;
+Obj v__3515030_37 = primGenSym(co);
+Obj v__3514673_37 = v__3515030_37;
+R[1] = v__3514673_37;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3513143_37);
+coraCall1(co, closureRef(R[0], 1), v__3514673_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513501_37= co->res;
-Obj v__3513143_37 = R[1];
-Obj v__3513502_37 = makeCons(co->gc, v__3513501_37, Nil);
-Obj v__3513503_37 = makeCons(co->gc, closureRef(R[0], 0), v__3513502_37);
-Obj v__3513504_37 = makeCons(co->gc, v__3513143_37, v__3513503_37);
-Obj v__3513505_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513504_37);
-coraReturn(co, v__3513505_37);
+Obj v__3515031_37= co->res;
+Obj v__3514673_37 = R[1];
+Obj v__3515032_37 = makeCons(co->gc, v__3515031_37, Nil);
+Obj v__3515033_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515032_37);
+Obj v__3515034_37 = makeCons(co->gc, v__3514673_37, v__3515033_37);
+Obj v__3515035_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515034_37);
+coraReturn(co, v__3515035_37);
 return;
 }
 }
@@ -2956,18 +2956,18 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-R[1] = v_x;
+Obj v__3514450_37 = R[1];
+R[1] = v__3514450_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 0));
 return;
 }
 case 1:
 {
-Obj v__3513496_37= co->res;
-Obj v_x = R[1];
+Obj v__3515026_37= co->res;
+Obj v__3514450_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3513496_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v_x));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515026_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v__3514450_37));
 return;
 }
 }
@@ -2977,12 +2977,12 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_y = R[1];
-Obj v__3513497_37 = makeCons(co->gc, v_y, Nil);
-Obj v__3513498_37 = makeCons(co->gc, closureRef(R[0], 1), v__3513497_37);
-Obj v__3513499_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513498_37);
+Obj v__3514451_37 = R[1];
+Obj v__3515027_37 = makeCons(co->gc, v__3514451_37, Nil);
+Obj v__3515028_37 = makeCons(co->gc, closureRef(R[0], 1), v__3515027_37);
+Obj v__3515029_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515028_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 0), v__3513499_37);
+coraCall1(co, closureRef(R[0], 0), v__3515029_37);
 return;
 }
 }
@@ -2992,61 +2992,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_value = R[1];
-Obj v_rules = R[2];
-R[1] = v_value;
-R[2] = v_rules;
+Obj v__3514441_37 = R[1];
+Obj v__3514442_37 = R[2];
+R[1] = v__3514441_37;
+R[2] = v__3514442_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514442_37);
 return;
 }
 case 1:
 {
-Obj v__3513493_37= co->res;
-Obj v__3513131_37 = R[1];
-if (True == v__3513493_37) {
+Obj v__3515023_37= co->res;
+Obj v__3514661_37 = R[1];
+if (True == v__3515023_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513131_37, True);
+coraCall1(co, v__3514661_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513131_37, False);
+coraCall1(co, v__3514661_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513491_37= co->res;
-Obj v_rules = R[1];
-Obj v__3513131_37 = R[2];
-if (True == v__3513491_37) {
-Obj v__3513492_37 = PRIM_CDR(v_rules);
-R[1] = v__3513131_37;
+Obj v__3515021_37= co->res;
+Obj v__3514442_37 = R[1];
+Obj v__3514661_37 = R[2];
+if (True == v__3515021_37) {
+Obj v__3515022_37 = PRIM_CDR(v__3514442_37);
+R[1] = v__3514661_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3513492_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3515022_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513131_37, False);
+coraCall1(co, v__3514661_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3513473_37= co->res;
-Obj v_value = R[1];
-Obj v_rules = R[2];
-if (True == v__3513473_37) {
-Obj v__3513474_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3513475_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513474_37);
-coraReturn(co, v__3513475_37);
+Obj v__3515003_37= co->res;
+Obj v__3514441_37 = R[1];
+Obj v__3514442_37 = R[2];
+if (True == v__3515003_37) {
+Obj v__3515004_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3515005_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3515004_37);
+coraReturn(co, v__3515005_37);
 return;
 } else {
-Obj v__3513131_37 = makeNative(co->gc, 3, clofun41, 1, 2, v_value, v_rules);
-R[1] = v_rules;
-R[2] = v__3513131_37;
+Obj v__3514661_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514441_37, v__3514442_37);
+R[1] = v__3514442_37;
+R[2] = v__3514661_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_rules);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514442_37);
 return;
 }
 }
@@ -3057,16 +3057,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513130_37 = R[1];
-if (True == v__3513130_37) {
-Obj v__3513476_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513132_37 = v__3513476_37;
-Obj v__3513477_37 = primGenSym(co);
-Obj v__3513133_37 = v__3513477_37;
-R[1] = v__3513132_37;
-R[2] = v__3513133_37;
+Obj v__3514660_37 = R[1];
+if (True == v__3514660_37) {
+Obj v__3515006_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514662_37 = v__3515006_37;
+Obj v__3515007_37 = primGenSym(co);
+Obj v__3514663_37 = v__3515007_37;
+R[1] = v__3514662_37;
+R[2] = v__3514663_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3513133_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3514663_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3076,53 +3076,53 @@ return;
 }
 case 1:
 {
-Obj v__3513483_37= co->res;
-Obj v__3513135_37 = R[1];
-Obj v__3513133_37 = R[2];
-Obj v__3513136_37 = v__3513483_37;
-Obj v__3513484_37 = makeCons(co->gc, v__3513136_37, Nil);
-Obj v__3513485_37 = makeCons(co->gc, Nil, v__3513484_37);
-Obj v__3513486_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513485_37);
-Obj v__3513487_37 = makeCons(co->gc, v__3513135_37, Nil);
-Obj v__3513488_37 = makeCons(co->gc, v__3513486_37, v__3513487_37);
-Obj v__3513489_37 = makeCons(co->gc, v__3513133_37, v__3513488_37);
-Obj v__3513490_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513489_37);
-coraReturn(co, v__3513490_37);
+Obj v__3515013_37= co->res;
+Obj v__3514665_37 = R[1];
+Obj v__3514663_37 = R[2];
+Obj v__3514666_37 = v__3515013_37;
+Obj v__3515014_37 = makeCons(co->gc, v__3514666_37, Nil);
+Obj v__3515015_37 = makeCons(co->gc, Nil, v__3515014_37);
+Obj v__3515016_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515015_37);
+Obj v__3515017_37 = makeCons(co->gc, v__3514665_37, Nil);
+Obj v__3515018_37 = makeCons(co->gc, v__3515016_37, v__3515017_37);
+Obj v__3515019_37 = makeCons(co->gc, v__3514663_37, v__3515018_37);
+Obj v__3515020_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515019_37);
+coraReturn(co, v__3515020_37);
 return;
 }
 case 2:
 {
-Obj v__3513480_37= co->res;
-Obj v__3513133_37 = R[1];
-Obj v__3513135_37 = v__3513480_37;
-Obj v__3513481_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3513482_37 = PRIM_CDR(v__3513481_37);
-R[1] = v__3513135_37;
-R[2] = v__3513133_37;
+Obj v__3515010_37= co->res;
+Obj v__3514663_37 = R[1];
+Obj v__3514665_37 = v__3515010_37;
+Obj v__3515011_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3515012_37 = PRIM_CDR(v__3515011_37);
+R[1] = v__3514665_37;
+R[2] = v__3514663_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3513482_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3515012_37);
 return;
 }
 case 3:
 {
-Obj v__3513479_37= co->res;
-Obj v__3513134_37 = R[1];
-Obj v__3513133_37 = R[2];
-R[1] = v__3513133_37;
+Obj v__3515009_37= co->res;
+Obj v__3514664_37 = R[1];
+Obj v__3514663_37 = R[2];
+R[1] = v__3514663_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3513479_37, closureRef(R[0], 0), v__3513134_37, v__3513133_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3515009_37, closureRef(R[0], 0), v__3514664_37, v__3514663_37);
 return;
 }
 case 4:
 {
-Obj v__3513478_37= co->res;
-Obj v__3513132_37 = R[1];
-Obj v__3513133_37 = R[2];
-Obj v__3513134_37 = v__3513478_37;
-R[1] = v__3513134_37;
-R[2] = v__3513133_37;
+Obj v__3515008_37= co->res;
+Obj v__3514662_37 = R[1];
+Obj v__3514663_37 = R[2];
+Obj v__3514664_37 = v__3515008_37;
+R[1] = v__3514664_37;
+R[2] = v__3514663_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3513132_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3514662_37);
 return;
 }
 }
@@ -3132,38 +3132,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_rules = R[1];
-Obj v_cc = R[2];
-Obj v__3513460_37 = PRIM_CDR(v_rules);
-Obj v__3513461_37 = PRIM_CAR(v__3513460_37);
-Obj v__3513125_37 = v__3513461_37;
-Obj v__3513128_37 = makeNative(co->gc, 2, clofun39, 1, 2, v_cc, v__3513125_37);
-R[1] = v__3513125_37;
-R[2] = v__3513128_37;
+Obj v__3514438_37 = R[1];
+Obj v__3514439_37 = R[2];
+Obj v__3514990_37 = PRIM_CDR(v__3514438_37);
+Obj v__3514991_37 = PRIM_CAR(v__3514990_37);
+Obj v__3514655_37 = v__3514991_37;
+Obj v__3514658_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514439_37, v__3514655_37);
+R[1] = v__3514655_37;
+R[2] = v__3514658_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3513125_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514655_37);
 return;
 }
 case 1:
 {
-Obj v__3513469_37= co->res;
-Obj v__3513125_37 = R[1];
-Obj v__3513128_37 = R[2];
-if (True == v__3513469_37) {
-Obj v__3513470_37 = PRIM_CAR(v__3513125_37);
-Obj v__3513471_37 = PRIM_EQ(v__3513470_37, getBinding(co, packageID, 111).name);
-if (True == v__3513471_37) {
+Obj v__3514999_37= co->res;
+Obj v__3514655_37 = R[1];
+Obj v__3514658_37 = R[2];
+if (True == v__3514999_37) {
+Obj v__3515000_37 = PRIM_CAR(v__3514655_37);
+Obj v__3515001_37 = PRIM_EQ(v__3515000_37, getBinding(co, packageID, 111).name);
+if (True == v__3515001_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513128_37, True);
+coraCall1(co, v__3514658_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513128_37, False);
+coraCall1(co, v__3514658_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513128_37, False);
+coraCall1(co, v__3514658_37, False);
 return;
 }
 }
@@ -3174,8 +3174,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513127_37 = R[1];
-if (True == v__3513127_37) {
+Obj v__3514657_37 = R[1];
+if (True == v__3514657_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
@@ -3186,20 +3186,20 @@ return;
 }
 case 1:
 {
-Obj v__3513463_37= co->res;
-Obj v__3513462_37 = R[1];
-Obj v__3513464_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3513465_37 = makeCons(co->gc, v__3513464_37, Nil);
-Obj v__3513466_37 = makeCons(co->gc, v__3513463_37, v__3513465_37);
-Obj v__3513467_37 = makeCons(co->gc, v__3513462_37, v__3513466_37);
-Obj v__3513468_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513467_37);
-coraReturn(co, v__3513468_37);
+Obj v__3514993_37= co->res;
+Obj v__3514992_37 = R[1];
+Obj v__3514994_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3514995_37 = makeCons(co->gc, v__3514994_37, Nil);
+Obj v__3514996_37 = makeCons(co->gc, v__3514993_37, v__3514995_37);
+Obj v__3514997_37 = makeCons(co->gc, v__3514992_37, v__3514996_37);
+Obj v__3514998_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514997_37);
+coraReturn(co, v__3514998_37);
 return;
 }
 case 2:
 {
-Obj v__3513462_37= co->res;
-R[1] = v__3513462_37;
+Obj v__3514992_37= co->res;
+R[1] = v__3514992_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
@@ -3211,52 +3211,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_pat = R[1];
-Obj v_expr = R[2];
-Obj v_body = R[3];
-Obj v_cc = R[4];
-R[1] = v_expr;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_pat;
+Obj v__3514432_37 = R[1];
+Obj v__3514433_37 = R[2];
+Obj v__3514434_37 = R[3];
+Obj v__3514435_37 = R[4];
+R[1] = v__3514433_37;
+R[2] = v__3514434_37;
+R[3] = v__3514435_37;
+R[4] = v__3514432_37;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v_pat);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514432_37);
 return;
 }
 case 1:
 {
-Obj v__3513458_37= co->res;
+Obj v__3514988_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3513458_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3514988_37);
 return;
 }
 case 2:
 {
-Obj v__3513445_37= co->res;
-Obj v_expr = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_pat = R[4];
-if (True == v__3513445_37) {
-Obj v__3513446_37 = PRIM_CAR(v_pat);
-Obj v__3513447_37 = PRIM_EQ(v__3513446_37, getBinding(co, packageID, 140).name);
-if (True == v__3513447_37) {
-Obj v__3513448_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513449_37 = makeCons(co->gc, v_pat, v__3513448_37);
-Obj v__3513450_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513449_37);
-Obj v__3513451_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513452_37 = makeCons(co->gc, v__3513451_37, Nil);
-Obj v__3513453_37 = makeCons(co->gc, v_body, v__3513452_37);
-Obj v__3513454_37 = makeCons(co->gc, v__3513450_37, v__3513453_37);
-Obj v__3513455_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513454_37);
-coraReturn(co, v__3513455_37);
+Obj v__3514975_37= co->res;
+Obj v__3514433_37 = R[1];
+Obj v__3514434_37 = R[2];
+Obj v__3514435_37 = R[3];
+Obj v__3514432_37 = R[4];
+if (True == v__3514975_37) {
+Obj v__3514976_37 = PRIM_CAR(v__3514432_37);
+Obj v__3514977_37 = PRIM_EQ(v__3514976_37, getBinding(co, packageID, 140).name);
+if (True == v__3514977_37) {
+Obj v__3514978_37 = makeCons(co->gc, v__3514433_37, Nil);
+Obj v__3514979_37 = makeCons(co->gc, v__3514432_37, v__3514978_37);
+Obj v__3514980_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3514979_37);
+Obj v__3514981_37 = makeCons(co->gc, v__3514435_37, Nil);
+Obj v__3514982_37 = makeCons(co->gc, v__3514981_37, Nil);
+Obj v__3514983_37 = makeCons(co->gc, v__3514434_37, v__3514982_37);
+Obj v__3514984_37 = makeCons(co->gc, v__3514980_37, v__3514983_37);
+Obj v__3514985_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514984_37);
+coraReturn(co, v__3514985_37);
 return;
 } else {
-Obj v__3513456_37 = PRIM_CAR(v_pat);
-Obj v__3513457_37 = PRIM_EQ(v__3513456_37, getBinding(co, packageID, 153).name);
-if (True == v__3513457_37) {
+Obj v__3514986_37 = PRIM_CAR(v__3514432_37);
+Obj v__3514987_37 = PRIM_EQ(v__3514986_37, getBinding(co, packageID, 153).name);
+if (True == v__3514987_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v_pat, v_expr, v_body, v_cc);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v__3514432_37, v__3514433_37, v__3514434_37, v__3514435_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3266,50 +3266,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v_pat);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v__3514432_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3513430_37= co->res;
-Obj v_expr = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_pat = R[4];
-if (True == v__3513430_37) {
-Obj v__3513431_37 = PRIM_EQ(v_pat, v_expr);
-if (True == v__3513431_37) {
-coraReturn(co, v_body);
-return;
-} else {
-Obj v__3513432_37 = makeCons(co->gc, v_expr, Nil);
-Obj v__3513433_37 = makeCons(co->gc, v_pat, v__3513432_37);
-Obj v__3513434_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3513433_37);
-Obj v__3513435_37 = makeCons(co->gc, v_cc, Nil);
-Obj v__3513436_37 = makeCons(co->gc, v__3513435_37, Nil);
-Obj v__3513437_37 = makeCons(co->gc, v_body, v__3513436_37);
-Obj v__3513438_37 = makeCons(co->gc, v__3513434_37, v__3513437_37);
-Obj v__3513439_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513438_37);
-coraReturn(co, v__3513439_37);
-return;
-}
-} else {
-Obj v__3513440_37 = primIsSymbol(v_pat);
-if (True == v__3513440_37) {
-Obj v__3513441_37 = makeCons(co->gc, v_body, Nil);
-Obj v__3513442_37 = makeCons(co->gc, v_expr, v__3513441_37);
-Obj v__3513443_37 = makeCons(co->gc, v_pat, v__3513442_37);
-Obj v__3513444_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513443_37);
-coraReturn(co, v__3513444_37);
-return;
-} else {
-R[1] = v_expr;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_pat;
+Obj v__3514960_37= co->res;
+Obj v__3514433_37 = R[1];
+Obj v__3514434_37 = R[2];
+Obj v__3514435_37 = R[3];
+Obj v__3514432_37 = R[4];
+if (True == v__3514960_37) {
+Obj v__3514961_37 = PRIM_EQ(v__3514432_37, v__3514433_37);
+if (True == v__3514961_37) {
+coraReturn(co, v__3514434_37);
+return;
+} else {
+Obj v__3514962_37 = makeCons(co->gc, v__3514433_37, Nil);
+Obj v__3514963_37 = makeCons(co->gc, v__3514432_37, v__3514962_37);
+Obj v__3514964_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3514963_37);
+Obj v__3514965_37 = makeCons(co->gc, v__3514435_37, Nil);
+Obj v__3514966_37 = makeCons(co->gc, v__3514965_37, Nil);
+Obj v__3514967_37 = makeCons(co->gc, v__3514434_37, v__3514966_37);
+Obj v__3514968_37 = makeCons(co->gc, v__3514964_37, v__3514967_37);
+Obj v__3514969_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514968_37);
+coraReturn(co, v__3514969_37);
+return;
+}
+} else {
+Obj v__3514970_37 = primIsSymbol(v__3514432_37);
+if (True == v__3514970_37) {
+Obj v__3514971_37 = makeCons(co->gc, v__3514434_37, Nil);
+Obj v__3514972_37 = makeCons(co->gc, v__3514433_37, v__3514971_37);
+Obj v__3514973_37 = makeCons(co->gc, v__3514432_37, v__3514972_37);
+Obj v__3514974_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514973_37);
+coraReturn(co, v__3514974_37);
+return;
+} else {
+R[1] = v__3514433_37;
+R[2] = v__3514434_37;
+R[3] = v__3514435_37;
+R[4] = v__3514432_37;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514432_37);
 return;
 }
 }
@@ -3321,20 +3321,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-R[1] = v_x;
+Obj v__3514437_37 = R[1];
+R[1] = v__3514437_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3514437_37);
 return;
 }
 case 1:
 {
-Obj v__3513427_37= co->res;
-Obj v_x = R[1];
-if (True == v__3513427_37) {
-Obj v__3513428_37 = primIsSymbol(v_x);
-Obj v__3513429_37 = primNot(v__3513428_37);
-if (True == v__3513429_37) {
+Obj v__3514957_37= co->res;
+Obj v__3514437_37 = R[1];
+if (True == v__3514957_37) {
+Obj v__3514958_37 = primIsSymbol(v__3514437_37);
+Obj v__3514959_37 = primNot(v__3514958_37);
+if (True == v__3514959_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3353,60 +3353,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_pat = R[1];
-Obj v_expr = R[2];
-Obj v_body = R[3];
-Obj v_cc = R[4];
-R[1] = v_pat;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_expr;
+Obj v__3514424_37 = R[1];
+Obj v__3514425_37 = R[2];
+Obj v__3514426_37 = R[3];
+Obj v__3514427_37 = R[4];
+R[1] = v__3514424_37;
+R[2] = v__3514426_37;
+R[3] = v__3514427_37;
+R[4] = v__3514425_37;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514424_37);
 return;
 }
 case 1:
 {
-Obj v__3513406_37= co->res;
-Obj v__3513118_37 = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_expr = R[4];
-Obj v__3513119_37 = v__3513406_37;
-Obj v__3513122_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3513118_37, v__3513119_37, v_expr, v_body, v_cc);
-Obj v__3513423_37 = PRIM_ISCONS(v_expr);
-if (True == v__3513423_37) {
-Obj v__3513424_37 = PRIM_CAR(v_expr);
-Obj v__3513425_37 = PRIM_EQ(v__3513424_37, getBinding(co, packageID, 153).name);
-if (True == v__3513425_37) {
+Obj v__3514936_37= co->res;
+Obj v__3514648_37 = R[1];
+Obj v__3514426_37 = R[2];
+Obj v__3514427_37 = R[3];
+Obj v__3514425_37 = R[4];
+Obj v__3514649_37 = v__3514936_37;
+Obj v__3514652_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514648_37, v__3514649_37, v__3514425_37, v__3514426_37, v__3514427_37);
+Obj v__3514953_37 = PRIM_ISCONS(v__3514425_37);
+if (True == v__3514953_37) {
+Obj v__3514954_37 = PRIM_CAR(v__3514425_37);
+Obj v__3514955_37 = PRIM_EQ(v__3514954_37, getBinding(co, packageID, 153).name);
+if (True == v__3514955_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513122_37, True);
+coraCall1(co, v__3514652_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513122_37, False);
+coraCall1(co, v__3514652_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513122_37, False);
+coraCall1(co, v__3514652_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3513405_37= co->res;
-Obj v_pat = R[1];
-Obj v_body = R[2];
-Obj v_cc = R[3];
-Obj v_expr = R[4];
-Obj v__3513118_37 = v__3513405_37;
-R[1] = v__3513118_37;
-R[2] = v_body;
-R[3] = v_cc;
-R[4] = v_expr;
+Obj v__3514935_37= co->res;
+Obj v__3514424_37 = R[1];
+Obj v__3514426_37 = R[2];
+Obj v__3514427_37 = R[3];
+Obj v__3514425_37 = R[4];
+Obj v__3514648_37 = v__3514935_37;
+R[1] = v__3514648_37;
+R[2] = v__3514426_37;
+R[3] = v__3514427_37;
+R[4] = v__3514425_37;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_pat);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514424_37);
 return;
 }
 }
@@ -3416,72 +3416,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513121_37 = R[1];
-if (True == v__3513121_37) {
+Obj v__3514651_37 = R[1];
+if (True == v__3514651_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3513410_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513411_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3513410_37);
-Obj v__3513412_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513413_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3513412_37);
-Obj v__3513414_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3513415_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3513414_37);
-R[1] = v__3513413_37;
-R[2] = v__3513411_37;
+Obj v__3514940_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514941_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3514940_37);
+Obj v__3514942_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514943_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3514942_37);
+Obj v__3514944_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3514945_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3514944_37);
+R[1] = v__3514943_37;
+R[2] = v__3514941_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3513415_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514945_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3513409_37= co->res;
-Obj v__3513123_37 = R[1];
+Obj v__3514939_37= co->res;
+Obj v__3514653_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3513123_37, v__3513409_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514653_37, v__3514939_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3513408_37= co->res;
-Obj v__3513123_37 = R[1];
-Obj v__3513124_37 = v__3513408_37;
-R[1] = v__3513123_37;
+Obj v__3514938_37= co->res;
+Obj v__3514653_37 = R[1];
+Obj v__3514654_37 = v__3514938_37;
+R[1] = v__3514653_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3513124_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514654_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3513407_37= co->res;
-Obj v__3513123_37 = v__3513407_37;
-R[1] = v__3513123_37;
+Obj v__3514937_37= co->res;
+Obj v__3514653_37 = v__3514937_37;
+R[1] = v__3514653_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3513417_37= co->res;
-Obj v__3513411_37 = R[1];
-Obj v__3513418_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3513419_37 = makeCons(co->gc, v__3513418_37, Nil);
-Obj v__3513420_37 = makeCons(co->gc, v__3513417_37, v__3513419_37);
-Obj v__3513421_37 = makeCons(co->gc, v__3513411_37, v__3513420_37);
-Obj v__3513422_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513421_37);
-coraReturn(co, v__3513422_37);
+Obj v__3514947_37= co->res;
+Obj v__3514941_37 = R[1];
+Obj v__3514948_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3514949_37 = makeCons(co->gc, v__3514948_37, Nil);
+Obj v__3514950_37 = makeCons(co->gc, v__3514947_37, v__3514949_37);
+Obj v__3514951_37 = makeCons(co->gc, v__3514941_37, v__3514950_37);
+Obj v__3514952_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514951_37);
+coraReturn(co, v__3514952_37);
 return;
 }
 case 5:
 {
-Obj v__3513416_37= co->res;
-Obj v__3513413_37 = R[1];
-Obj v__3513411_37 = R[2];
-R[1] = v__3513411_37;
+Obj v__3514946_37= co->res;
+Obj v__3514943_37 = R[1];
+Obj v__3514941_37 = R[2];
+R[1] = v__3514941_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3513413_37, v__3513416_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514943_37, v__3514946_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3491,10 +3491,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513403_37 = PRIM_CDR(v_exp);
+Obj v__3514423_37 = R[1];
+Obj v__3514933_37 = PRIM_CDR(v__3514423_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513403_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3514933_37);
 return;
 }
 }
@@ -3504,37 +3504,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_pat = R[1];
-Obj v__3513393_37 = PRIM_CDR(v_pat);
-R[1] = v_pat;
+Obj v__3514422_37 = R[1];
+Obj v__3514923_37 = PRIM_CDR(v__3514422_37);
+R[1] = v__3514422_37;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513393_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514923_37);
 return;
 }
 case 1:
 {
-Obj v__3513398_37= co->res;
-Obj v__3513396_37 = R[1];
-Obj v__3513399_37 = makeCons(co->gc, v__3513398_37, Nil);
-Obj v__3513400_37 = makeCons(co->gc, v__3513396_37, v__3513399_37);
-Obj v__3513401_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513400_37);
-coraReturn(co, v__3513401_37);
+Obj v__3514928_37= co->res;
+Obj v__3514926_37 = R[1];
+Obj v__3514929_37 = makeCons(co->gc, v__3514928_37, Nil);
+Obj v__3514930_37 = makeCons(co->gc, v__3514926_37, v__3514929_37);
+Obj v__3514931_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514930_37);
+coraReturn(co, v__3514931_37);
 return;
 }
 case 2:
 {
-Obj v__3513394_37= co->res;
-Obj v_pat = R[1];
-if (True == v__3513394_37) {
-Obj v__3513395_37 = PRIM_CAR(v_pat);
-coraReturn(co, v__3513395_37);
+Obj v__3514924_37= co->res;
+Obj v__3514422_37 = R[1];
+if (True == v__3514924_37) {
+Obj v__3514925_37 = PRIM_CAR(v__3514422_37);
+coraReturn(co, v__3514925_37);
 return;
 } else {
-Obj v__3513396_37 = PRIM_CAR(v_pat);
-Obj v__3513397_37 = PRIM_CDR(v_pat);
-R[1] = v__3513396_37;
+Obj v__3514926_37 = PRIM_CAR(v__3514422_37);
+Obj v__3514927_37 = PRIM_CDR(v__3514422_37);
+R[1] = v__3514926_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3513397_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3514927_37);
 return;
 }
 }
@@ -3545,14 +3545,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513390_37 = PRIM_EQ(v_x, True);
-if (True == v__3513390_37) {
+Obj v__3514421_37 = R[1];
+Obj v__3514920_37 = PRIM_EQ(v__3514421_37, True);
+if (True == v__3514920_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513391_37 = PRIM_EQ(v_x, False);
-if (True == v__3513391_37) {
+Obj v__3514921_37 = PRIM_EQ(v__3514421_37, False);
+if (True == v__3514921_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3568,10 +3568,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513388_37 = PRIM_CDR(v_exp);
+Obj v__3514420_37 = R[1];
+Obj v__3514918_37 = PRIM_CDR(v__3514420_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3513388_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514918_37);
 return;
 }
 }
@@ -3581,42 +3581,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l = R[1];
-Obj v__3513376_37 = PRIM_EQ(Nil, v_l);
-if (True == v__3513376_37) {
+Obj v__3514418_37 = R[1];
+Obj v__3514906_37 = PRIM_EQ(Nil, v__3514418_37);
+if (True == v__3514906_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513377_37 = PRIM_CAR(v_l);
-Obj v__3513378_37 = PRIM_EQ(v__3513377_37, False);
-if (True == v__3513378_37) {
+Obj v__3514907_37 = PRIM_CAR(v__3514418_37);
+Obj v__3514908_37 = PRIM_EQ(v__3514907_37, False);
+if (True == v__3514908_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513379_37 = PRIM_CDR(v_l);
-R[1] = v_l;
+Obj v__3514909_37 = PRIM_CDR(v__3514418_37);
+R[1] = v__3514418_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3513379_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514909_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513380_37= co->res;
-Obj v_l = R[1];
-Obj v__3513117_37 = v__3513380_37;
-Obj v__3513381_37 = PRIM_EQ(v__3513117_37, False);
-if (True == v__3513381_37) {
+Obj v__3514910_37= co->res;
+Obj v__3514418_37 = R[1];
+Obj v__3514647_37 = v__3514910_37;
+Obj v__3514911_37 = PRIM_EQ(v__3514647_37, False);
+if (True == v__3514911_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513382_37 = PRIM_CAR(v_l);
-Obj v__3513383_37 = makeCons(co->gc, False, Nil);
-Obj v__3513384_37 = makeCons(co->gc, v__3513117_37, v__3513383_37);
-Obj v__3513385_37 = makeCons(co->gc, v__3513382_37, v__3513384_37);
-Obj v__3513386_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513385_37);
-coraReturn(co, v__3513386_37);
+Obj v__3514912_37 = PRIM_CAR(v__3514418_37);
+Obj v__3514913_37 = makeCons(co->gc, False, Nil);
+Obj v__3514914_37 = makeCons(co->gc, v__3514647_37, v__3514913_37);
+Obj v__3514915_37 = makeCons(co->gc, v__3514912_37, v__3514914_37);
+Obj v__3514916_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514915_37);
+coraReturn(co, v__3514916_37);
 return;
 }
 }
@@ -3627,10 +3627,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513374_37 = PRIM_CDR(v_exp);
+Obj v__3514417_37 = R[1];
+Obj v__3514904_37 = PRIM_CDR(v__3514417_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3513374_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514904_37);
 return;
 }
 }
@@ -3640,42 +3640,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_l = R[1];
-Obj v__3513362_37 = PRIM_EQ(v_l, Nil);
-if (True == v__3513362_37) {
+Obj v__3514415_37 = R[1];
+Obj v__3514892_37 = PRIM_EQ(v__3514415_37, Nil);
+if (True == v__3514892_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3513363_37 = PRIM_CAR(v_l);
-Obj v__3513364_37 = PRIM_EQ(v__3513363_37, True);
-if (True == v__3513364_37) {
+Obj v__3514893_37 = PRIM_CAR(v__3514415_37);
+Obj v__3514894_37 = PRIM_EQ(v__3514893_37, True);
+if (True == v__3514894_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513365_37 = PRIM_CDR(v_l);
-R[1] = v_l;
+Obj v__3514895_37 = PRIM_CDR(v__3514415_37);
+R[1] = v__3514415_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3513365_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514895_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3513366_37= co->res;
-Obj v_l = R[1];
-Obj v__3513116_37 = v__3513366_37;
-Obj v__3513367_37 = PRIM_EQ(v__3513116_37, True);
-if (True == v__3513367_37) {
+Obj v__3514896_37= co->res;
+Obj v__3514415_37 = R[1];
+Obj v__3514646_37 = v__3514896_37;
+Obj v__3514897_37 = PRIM_EQ(v__3514646_37, True);
+if (True == v__3514897_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513368_37 = PRIM_CAR(v_l);
-Obj v__3513369_37 = makeCons(co->gc, v__3513116_37, Nil);
-Obj v__3513370_37 = makeCons(co->gc, True, v__3513369_37);
-Obj v__3513371_37 = makeCons(co->gc, v__3513368_37, v__3513370_37);
-Obj v__3513372_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513371_37);
-coraReturn(co, v__3513372_37);
+Obj v__3514898_37 = PRIM_CAR(v__3514415_37);
+Obj v__3514899_37 = makeCons(co->gc, v__3514646_37, Nil);
+Obj v__3514900_37 = makeCons(co->gc, True, v__3514899_37);
+Obj v__3514901_37 = makeCons(co->gc, v__3514898_37, v__3514900_37);
+Obj v__3514902_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514901_37);
+coraReturn(co, v__3514902_37);
 return;
 }
 }
@@ -3686,55 +3686,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513348_37 = PRIM_CDR(v_exp);
-Obj v__3513349_37 = PRIM_EQ(Nil, v__3513348_37);
-if (True == v__3513349_37) {
-Obj v__3513350_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3513351_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3513350_37);
-coraReturn(co, v__3513351_37);
+Obj v__3514413_37 = R[1];
+Obj v__3514878_37 = PRIM_CDR(v__3514413_37);
+Obj v__3514879_37 = PRIM_EQ(Nil, v__3514878_37);
+if (True == v__3514879_37) {
+Obj v__3514880_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3514881_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514880_37);
+coraReturn(co, v__3514881_37);
 return;
 } else {
-R[1] = v_exp;
+R[1] = v__3514413_37;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514413_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513355_37= co->res;
-Obj v__3513354_37 = R[1];
-Obj v__3513353_37 = R[2];
-Obj v__3513356_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3513355_37);
-Obj v__3513357_37 = makeCons(co->gc, v__3513356_37, Nil);
-Obj v__3513358_37 = makeCons(co->gc, v__3513354_37, v__3513357_37);
-Obj v__3513359_37 = makeCons(co->gc, v__3513353_37, v__3513358_37);
-Obj v__3513360_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3513359_37);
-coraReturn(co, v__3513360_37);
+Obj v__3514885_37= co->res;
+Obj v__3514884_37 = R[1];
+Obj v__3514883_37 = R[2];
+Obj v__3514886_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514885_37);
+Obj v__3514887_37 = makeCons(co->gc, v__3514886_37, Nil);
+Obj v__3514888_37 = makeCons(co->gc, v__3514884_37, v__3514887_37);
+Obj v__3514889_37 = makeCons(co->gc, v__3514883_37, v__3514888_37);
+Obj v__3514890_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514889_37);
+coraReturn(co, v__3514890_37);
 return;
 }
 case 2:
 {
-Obj v__3513354_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513353_37 = R[2];
-R[1] = v__3513354_37;
-R[2] = v__3513353_37;
+Obj v__3514884_37= co->res;
+Obj v__3514413_37 = R[1];
+Obj v__3514883_37 = R[2];
+R[1] = v__3514884_37;
+R[2] = v__3514883_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514413_37);
 return;
 }
 case 3:
 {
-Obj v__3513352_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513115_37 = v__3513352_37;
-Obj v__3513353_37 = PRIM_CAR(v__3513115_37);
-R[1] = v_exp;
-R[2] = v__3513353_37;
+Obj v__3514882_37= co->res;
+Obj v__3514413_37 = R[1];
+Obj v__3514645_37 = v__3514882_37;
+Obj v__3514883_37 = PRIM_CAR(v__3514645_37);
+R[1] = v__3514413_37;
+R[2] = v__3514883_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3513115_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514645_37);
 return;
 }
 }
@@ -3744,10 +3744,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513346_37 = PRIM_CDR(v_exp);
+Obj v__3514412_37 = R[1];
+Obj v__3514876_37 = PRIM_CDR(v__3514412_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3513346_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514876_37);
 return;
 }
 }
@@ -3757,61 +3757,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513334_37 = PRIM_CDR(v_exp);
-R[1] = v_exp;
+Obj v__3514411_37 = R[1];
+Obj v__3514864_37 = PRIM_CDR(v__3514411_37);
+R[1] = v__3514411_37;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3513334_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514864_37);
 return;
 }
 case 1:
 {
-Obj v__3513340_37= co->res;
-Obj v__3513338_37 = R[1];
-Obj v__3513337_37 = R[2];
-Obj v__3513341_37 = makeCons(co->gc, v__3513340_37, Nil);
-Obj v__3513342_37 = makeCons(co->gc, v__3513338_37, v__3513341_37);
-Obj v__3513343_37 = makeCons(co->gc, v__3513337_37, v__3513342_37);
-Obj v__3513344_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3513343_37);
-coraReturn(co, v__3513344_37);
+Obj v__3514870_37= co->res;
+Obj v__3514868_37 = R[1];
+Obj v__3514867_37 = R[2];
+Obj v__3514871_37 = makeCons(co->gc, v__3514870_37, Nil);
+Obj v__3514872_37 = makeCons(co->gc, v__3514868_37, v__3514871_37);
+Obj v__3514873_37 = makeCons(co->gc, v__3514867_37, v__3514872_37);
+Obj v__3514874_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514873_37);
+coraReturn(co, v__3514874_37);
 return;
 }
 case 2:
 {
-Obj v__3513339_37= co->res;
-Obj v__3513338_37 = R[1];
-Obj v__3513337_37 = R[2];
-R[1] = v__3513338_37;
-R[2] = v__3513337_37;
+Obj v__3514869_37= co->res;
+Obj v__3514868_37 = R[1];
+Obj v__3514867_37 = R[2];
+R[1] = v__3514868_37;
+R[2] = v__3514867_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3513339_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514869_37);
 return;
 }
 case 3:
 {
-Obj v__3513338_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513337_37 = R[2];
-R[1] = v__3513338_37;
-R[2] = v__3513337_37;
+Obj v__3514868_37= co->res;
+Obj v__3514411_37 = R[1];
+Obj v__3514867_37 = R[2];
+R[1] = v__3514868_37;
+R[2] = v__3514867_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514411_37);
 return;
 }
 case 4:
 {
-Obj v__3513335_37= co->res;
-Obj v_exp = R[1];
-if (True == v__3513335_37) {
-Obj v__3513336_37 = PRIM_CAR(v_exp);
-coraReturn(co, v__3513336_37);
+Obj v__3514865_37= co->res;
+Obj v__3514411_37 = R[1];
+if (True == v__3514865_37) {
+Obj v__3514866_37 = PRIM_CAR(v__3514411_37);
+coraReturn(co, v__3514866_37);
 return;
 } else {
-Obj v__3513337_37 = PRIM_CAR(v_exp);
-R[1] = v_exp;
-R[2] = v__3513337_37;
+Obj v__3514867_37 = PRIM_CAR(v__3514411_37);
+R[1] = v__3514411_37;
+R[2] = v__3514867_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514411_37);
 return;
 }
 }
@@ -3822,10 +3822,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513331_37 = PRIM_ISCONS(v_x);
-Obj v__3513332_37 = primNot(v__3513331_37);
-coraReturn(co, v__3513332_37);
+Obj v__3514410_37 = R[1];
+Obj v__3514861_37 = PRIM_ISCONS(v__3514410_37);
+Obj v__3514862_37 = primNot(v__3514861_37);
+coraReturn(co, v__3514862_37);
 return;
 }
 }
@@ -3835,19 +3835,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v_l = R[2];
-Obj v__3513326_37 = PRIM_ISCONS(v_l);
-if (True == v__3513326_37) {
-Obj v__3513327_37 = PRIM_CAR(v_l);
-Obj v__3513328_37 = PRIM_EQ(v__3513327_37, v_x);
-if (True == v__3513328_37) {
+Obj v__3514408_37 = R[1];
+Obj v__3514409_37 = R[2];
+Obj v__3514856_37 = PRIM_ISCONS(v__3514409_37);
+if (True == v__3514856_37) {
+Obj v__3514857_37 = PRIM_CAR(v__3514409_37);
+Obj v__3514858_37 = PRIM_EQ(v__3514857_37, v__3514408_37);
+if (True == v__3514858_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3513329_37 = PRIM_CDR(v_l);
+Obj v__3514859_37 = PRIM_CDR(v__3514409_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v_x, v__3513329_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514408_37, v__3514859_37);
 return;
 }
 } else {
@@ -3862,45 +3862,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514407_37 = R[1];
+R[1] = v__3514407_37;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514407_37);
 return;
 }
 case 1:
 {
-Obj v__3513318_37= co->res;
-Obj v__3513317_37 = R[1];
-Obj v__3513316_37 = R[2];
-Obj v__3513319_37 = makeCons(co->gc, v__3513318_37, Nil);
-Obj v__3513320_37 = makeCons(co->gc, v__3513317_37, v__3513319_37);
-Obj v__3513321_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513320_37);
-Obj v__3513322_37 = makeCons(co->gc, v__3513321_37, Nil);
-Obj v__3513323_37 = makeCons(co->gc, v__3513316_37, v__3513322_37);
-Obj v__3513324_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3513323_37);
-coraReturn(co, v__3513324_37);
+Obj v__3514848_37= co->res;
+Obj v__3514847_37 = R[1];
+Obj v__3514846_37 = R[2];
+Obj v__3514849_37 = makeCons(co->gc, v__3514848_37, Nil);
+Obj v__3514850_37 = makeCons(co->gc, v__3514847_37, v__3514849_37);
+Obj v__3514851_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514850_37);
+Obj v__3514852_37 = makeCons(co->gc, v__3514851_37, Nil);
+Obj v__3514853_37 = makeCons(co->gc, v__3514846_37, v__3514852_37);
+Obj v__3514854_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3514853_37);
+coraReturn(co, v__3514854_37);
 return;
 }
 case 2:
 {
-Obj v__3513317_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513316_37 = R[2];
-R[1] = v__3513317_37;
-R[2] = v__3513316_37;
+Obj v__3514847_37= co->res;
+Obj v__3514407_37 = R[1];
+Obj v__3514846_37 = R[2];
+R[1] = v__3514847_37;
+R[2] = v__3514846_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514407_37);
 return;
 }
 case 3:
 {
-Obj v__3513316_37= co->res;
-Obj v_exp = R[1];
-R[1] = v_exp;
-R[2] = v__3513316_37;
+Obj v__3514846_37= co->res;
+Obj v__3514407_37 = R[1];
+R[1] = v__3514407_37;
+R[2] = v__3514846_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514407_37);
 return;
 }
 }
@@ -3910,10 +3910,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513314_37 = PRIM_CDR(v_exp);
+Obj v__3514406_37 = R[1];
+Obj v__3514844_37 = PRIM_CDR(v__3514406_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3513314_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514844_37);
 return;
 }
 }
@@ -3923,46 +3923,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3514405_37 = R[1];
+R[1] = v__3514405_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514405_37);
 return;
 }
 case 1:
 {
-Obj v__3513306_37= co->res;
-Obj v__3513305_37 = R[1];
-Obj v__3513304_37 = R[2];
-Obj v__3513307_37 = makeCons(co->gc, v__3513305_37, v__3513306_37);
-Obj v__3513308_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513307_37);
-Obj v__3513309_37 = makeCons(co->gc, v__3513308_37, Nil);
-Obj v__3513310_37 = makeCons(co->gc, v__3513304_37, v__3513309_37);
-Obj v__3513311_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3513310_37);
-coraReturn(co, v__3513311_37);
+Obj v__3514836_37= co->res;
+Obj v__3514835_37 = R[1];
+Obj v__3514834_37 = R[2];
+Obj v__3514837_37 = makeCons(co->gc, v__3514835_37, v__3514836_37);
+Obj v__3514838_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514837_37);
+Obj v__3514839_37 = makeCons(co->gc, v__3514838_37, Nil);
+Obj v__3514840_37 = makeCons(co->gc, v__3514834_37, v__3514839_37);
+Obj v__3514841_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3514840_37);
+coraReturn(co, v__3514841_37);
 return;
 }
 case 2:
 {
-Obj v__3513305_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513304_37 = R[2];
-R[1] = v__3513305_37;
-R[2] = v__3513304_37;
+Obj v__3514835_37= co->res;
+Obj v__3514405_37 = R[1];
+Obj v__3514834_37 = R[2];
+R[1] = v__3514835_37;
+R[2] = v__3514834_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514405_37);
 return;
 }
 case 3:
 {
-Obj v__3513302_37= co->res;
-Obj v_exp = R[1];
-Obj v__3513303_37 = makeCons(co->gc, v__3513302_37, Nil);
-Obj v__3513304_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3513303_37);
-R[1] = v_exp;
-R[2] = v__3513304_37;
+Obj v__3514832_37= co->res;
+Obj v__3514405_37 = R[1];
+Obj v__3514833_37 = makeCons(co->gc, v__3514832_37, Nil);
+Obj v__3514834_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514833_37);
+R[1] = v__3514405_37;
+R[2] = v__3514834_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514405_37);
 return;
 }
 }
@@ -3972,76 +3972,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513284_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513284_37) {
-Obj v__3513285_37 = PRIM_CAR(v_exp);
-Obj v__3513286_37 = PRIM_EQ(v__3513285_37, globalRef(co, getBinding(co, packageID, 146)));
-if (True == v__3513286_37) {
-Obj v__3513287_37 = PRIM_CDR(v_exp);
-coraReturn(co, v__3513287_37);
+Obj v__3514402_37 = R[1];
+Obj v__3514814_37 = PRIM_ISCONS(v__3514402_37);
+if (True == v__3514814_37) {
+Obj v__3514815_37 = PRIM_CAR(v__3514402_37);
+Obj v__3514816_37 = PRIM_EQ(v__3514815_37, globalRef(co, getBinding(co, packageID, 146)));
+if (True == v__3514816_37) {
+Obj v__3514817_37 = PRIM_CDR(v__3514402_37);
+coraReturn(co, v__3514817_37);
 return;
 } else {
-Obj v__3513288_37 = PRIM_CAR(v_exp);
-Obj v__3513289_37 = PRIM_EQ(v__3513288_37, getBinding(co, packageID, 141).name);
-if (True == v__3513289_37) {
-R[1] = v_exp;
+Obj v__3514818_37 = PRIM_CAR(v__3514402_37);
+Obj v__3514819_37 = PRIM_EQ(v__3514818_37, getBinding(co, packageID, 141).name);
+if (True == v__3514819_37) {
+R[1] = v__3514402_37;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514402_37);
 return;
 } else {
-Obj v__3513296_37 = PRIM_CAR(v_exp);
-Obj v__3513297_37 = PRIM_EQ(v__3513296_37, getBinding(co, packageID, 140).name);
-if (True == v__3513297_37) {
-coraReturn(co, v_exp);
+Obj v__3514826_37 = PRIM_CAR(v__3514402_37);
+Obj v__3514827_37 = PRIM_EQ(v__3514826_37, getBinding(co, packageID, 140).name);
+if (True == v__3514827_37) {
+coraReturn(co, v__3514402_37);
 return;
 } else {
-R[1] = v_exp;
+R[1] = v__3514402_37;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v__3514402_37);
 return;
 }
 }
 }
 } else {
-coraReturn(co, v_exp);
+coraReturn(co, v__3514402_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513292_37= co->res;
-Obj v__3513290_37 = R[1];
-Obj v__3513293_37 = makeCons(co->gc, v__3513292_37, Nil);
-Obj v__3513294_37 = makeCons(co->gc, v__3513290_37, v__3513293_37);
-Obj v__3513295_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3513294_37);
-coraReturn(co, v__3513295_37);
+Obj v__3514822_37= co->res;
+Obj v__3514820_37 = R[1];
+Obj v__3514823_37 = makeCons(co->gc, v__3514822_37, Nil);
+Obj v__3514824_37 = makeCons(co->gc, v__3514820_37, v__3514823_37);
+Obj v__3514825_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514824_37);
+coraReturn(co, v__3514825_37);
 return;
 }
 case 2:
 {
-Obj v__3513291_37= co->res;
-Obj v__3513290_37 = R[1];
-R[1] = v__3513290_37;
+Obj v__3514821_37= co->res;
+Obj v__3514820_37 = R[1];
+R[1] = v__3514820_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3513291_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514821_37);
 return;
 }
 case 3:
 {
-Obj v__3513290_37= co->res;
-Obj v_exp = R[1];
-R[1] = v__3513290_37;
+Obj v__3514820_37= co->res;
+Obj v__3514402_37 = R[1];
+R[1] = v__3514820_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514402_37);
 return;
 }
 case 4:
 {
-Obj v__3513299_37= co->res;
-Obj v_exp = R[1];
+Obj v__3514829_37= co->res;
+Obj v__3514402_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v_exp), v__3513299_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514402_37), v__3514829_37);
 return;
 }
 }
@@ -4051,15 +4051,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp1 = R[1];
-Obj v__3513298_37 = PRIM_EQ(v_exp1, closureRef(R[0], 0));
-if (True == v__3513298_37) {
+Obj v__3514404_37 = R[1];
+Obj v__3514828_37 = PRIM_EQ(v__3514404_37, closureRef(R[0], 0));
+if (True == v__3514828_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v_exp1);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v__3514404_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v_exp1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514404_37);
 return;
 }
 }
@@ -4070,9 +4070,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3514401_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v_exp, globalRef(co, getBinding(co, packageID, 147)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v__3514401_37, globalRef(co, getBinding(co, packageID, 147)));
 return;
 }
 }
@@ -4082,16 +4082,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v_macros = R[2];
-Obj v__3513274_37 = PRIM_EQ(Nil, v_macros);
-if (True == v__3513274_37) {
-coraReturn(co, v_exp);
+Obj v__3514397_37 = R[1];
+Obj v__3514398_37 = R[2];
+Obj v__3514804_37 = PRIM_EQ(Nil, v__3514398_37);
+if (True == v__3514804_37) {
+coraReturn(co, v__3514397_37);
 return;
 } else {
-Obj v__3513281_37 = PRIM_CAR(v_macros);
+Obj v__3514811_37 = PRIM_CAR(v__3514398_37);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v_macros, v_exp), v__3513281_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514398_37, v__3514397_37), v__3514811_37);
 return;
 }
 }
@@ -4102,25 +4102,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_item = R[1];
-Obj v__3513114_37 = makeNative(co->gc, 2, clofun14, 1, 3, v_item, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3513277_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3513277_37) {
-Obj v__3513278_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3513279_37 = PRIM_CAR(v_item);
-Obj v__3513280_37 = PRIM_EQ(v__3513278_37, v__3513279_37);
-if (True == v__3513280_37) {
+Obj v__3514400_37 = R[1];
+Obj v__3514644_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514400_37, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3514807_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3514807_37) {
+Obj v__3514808_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514809_37 = PRIM_CAR(v__3514400_37);
+Obj v__3514810_37 = PRIM_EQ(v__3514808_37, v__3514809_37);
+if (True == v__3514810_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3513114_37, True);
+coraCall1(co, v__3514644_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513114_37, False);
+coraCall1(co, v__3514644_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3513114_37, False);
+coraCall1(co, v__3514644_37, False);
 return;
 }
 }
@@ -4131,16 +4131,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3513113_37 = R[1];
-if (True == v__3513113_37) {
-Obj v__3513275_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514643_37 = R[1];
+if (True == v__3514643_37) {
+Obj v__3514805_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3513275_37, closureRef(R[0], 1));
+coraCall1(co, v__3514805_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3513276_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3514806_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3513276_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3514806_37);
 return;
 }
 }
@@ -4151,12 +4151,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_n = R[1];
-Obj v_v = R[2];
-Obj v__3513270_37 = makeCons(co->gc, v_n, v_v);
-Obj v__3513271_37 = makeCons(co->gc, v__3513270_37, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3513272_37 = primSet(co, getBinding(co, packageID, 147).name, v__3513271_37);
-coraReturn(co, v__3513272_37);
+Obj v__3514395_37 = R[1];
+Obj v__3514396_37 = R[2];
+Obj v__3514800_37 = makeCons(co->gc, v__3514395_37, v__3514396_37);
+Obj v__3514801_37 = makeCons(co->gc, v__3514800_37, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514802_37 = primSet(co, getBinding(co, packageID, 147).name, v__3514801_37);
+coraReturn(co, v__3514802_37);
 return;
 }
 }
@@ -4166,10 +4166,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_f = R[1];
-Obj v_l = R[2];
+Obj v__3514393_37 = R[1];
+Obj v__3514394_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v_f, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v__3514393_37, v__3514394_37);
 return;
 }
 }
@@ -4179,34 +4179,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_f = R[2];
-Obj v_l = R[3];
-Obj v__3513260_37 = PRIM_ISCONS(v_l);
-if (True == v__3513260_37) {
-Obj v__3513261_37 = PRIM_CAR(v_l);
-R[1] = v_res;
-R[2] = v_l;
-R[3] = v_f;
+Obj v__3514390_37 = R[1];
+Obj v__3514391_37 = R[2];
+Obj v__3514392_37 = R[3];
+Obj v__3514790_37 = PRIM_ISCONS(v__3514392_37);
+if (True == v__3514790_37) {
+Obj v__3514791_37 = PRIM_CAR(v__3514392_37);
+R[1] = v__3514390_37;
+R[2] = v__3514392_37;
+R[3] = v__3514391_37;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v_f, v__3513261_37);
+coraCall1(co, v__3514391_37, v__3514791_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v_res);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514390_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3513262_37= co->res;
-Obj v_res = R[1];
-Obj v_l = R[2];
-Obj v_f = R[3];
-Obj v__3513263_37 = makeCons(co->gc, v__3513262_37, v_res);
-Obj v__3513264_37 = PRIM_CDR(v_l);
+Obj v__3514792_37= co->res;
+Obj v__3514390_37 = R[1];
+Obj v__3514392_37 = R[2];
+Obj v__3514391_37 = R[3];
+Obj v__3514793_37 = makeCons(co->gc, v__3514792_37, v__3514390_37);
+Obj v__3514794_37 = PRIM_CDR(v__3514392_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3513263_37, v_f, v__3513264_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3514793_37, v__3514391_37, v__3514794_37);
 return;
 }
 }
@@ -4216,18 +4216,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_res = R[1];
-Obj v_l = R[2];
-Obj v__3513253_37 = PRIM_ISCONS(v_l);
-if (True == v__3513253_37) {
-Obj v__3513254_37 = PRIM_CAR(v_l);
-Obj v__3513255_37 = makeCons(co->gc, v__3513254_37, v_res);
-Obj v__3513256_37 = PRIM_CDR(v_l);
+Obj v__3514388_37 = R[1];
+Obj v__3514389_37 = R[2];
+Obj v__3514783_37 = PRIM_ISCONS(v__3514389_37);
+if (True == v__3514783_37) {
+Obj v__3514784_37 = PRIM_CAR(v__3514389_37);
+Obj v__3514785_37 = makeCons(co->gc, v__3514784_37, v__3514388_37);
+Obj v__3514786_37 = PRIM_CDR(v__3514389_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3513255_37, v__3513256_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3514785_37, v__3514786_37);
 return;
 } else {
-coraReturn(co, v_res);
+coraReturn(co, v__3514388_37);
 return;
 }
 }
@@ -4238,9 +4238,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513251_37 = PRIM_ISCONS(v_x);
-coraReturn(co, v__3513251_37);
+Obj v__3514387_37 = R[1];
+Obj v__3514781_37 = PRIM_ISCONS(v__3514387_37);
+coraReturn(co, v__3514781_37);
 return;
 }
 }
@@ -4250,14 +4250,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-Obj v__3513243_37 = PRIM_ISCONS(v_exp);
-if (True == v__3513243_37) {
-Obj v__3513244_37 = PRIM_CAR(v_exp);
-Obj v__3513245_37 = PRIM_CDR(v_exp);
-R[1] = v__3513244_37;
+Obj v__3514386_37 = R[1];
+Obj v__3514773_37 = PRIM_ISCONS(v__3514386_37);
+if (True == v__3514773_37) {
+Obj v__3514774_37 = PRIM_CAR(v__3514386_37);
+Obj v__3514775_37 = PRIM_CDR(v__3514386_37);
+R[1] = v__3514774_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3513245_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514775_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4266,12 +4266,12 @@ return;
 }
 case 1:
 {
-Obj v__3513246_37= co->res;
-Obj v__3513244_37 = R[1];
-Obj v__3513247_37 = makeCons(co->gc, v__3513246_37, Nil);
-Obj v__3513248_37 = makeCons(co->gc, v__3513244_37, v__3513247_37);
-Obj v__3513249_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3513248_37);
-coraReturn(co, v__3513249_37);
+Obj v__3514776_37= co->res;
+Obj v__3514774_37 = R[1];
+Obj v__3514777_37 = makeCons(co->gc, v__3514776_37, Nil);
+Obj v__3514778_37 = makeCons(co->gc, v__3514774_37, v__3514777_37);
+Obj v__3514779_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514778_37);
+coraReturn(co, v__3514779_37);
 return;
 }
 }
@@ -4281,11 +4281,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513239_37 = PRIM_CDR(v_x);
-Obj v__3513240_37 = PRIM_CDR(v__3513239_37);
-Obj v__3513241_37 = PRIM_CDR(v__3513240_37);
-coraReturn(co, v__3513241_37);
+Obj v__3514385_37 = R[1];
+Obj v__3514769_37 = PRIM_CDR(v__3514385_37);
+Obj v__3514770_37 = PRIM_CDR(v__3514769_37);
+Obj v__3514771_37 = PRIM_CDR(v__3514770_37);
+coraReturn(co, v__3514771_37);
 return;
 }
 }
@@ -4295,12 +4295,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513234_37 = PRIM_CDR(v_x);
-Obj v__3513235_37 = PRIM_CDR(v__3513234_37);
-Obj v__3513236_37 = PRIM_CDR(v__3513235_37);
-Obj v__3513237_37 = PRIM_CAR(v__3513236_37);
-coraReturn(co, v__3513237_37);
+Obj v__3514384_37 = R[1];
+Obj v__3514764_37 = PRIM_CDR(v__3514384_37);
+Obj v__3514765_37 = PRIM_CDR(v__3514764_37);
+Obj v__3514766_37 = PRIM_CDR(v__3514765_37);
+Obj v__3514767_37 = PRIM_CAR(v__3514766_37);
+coraReturn(co, v__3514767_37);
 return;
 }
 }
@@ -4310,11 +4310,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513230_37 = PRIM_CDR(v_x);
-Obj v__3513231_37 = PRIM_CDR(v__3513230_37);
-Obj v__3513232_37 = PRIM_CAR(v__3513231_37);
-coraReturn(co, v__3513232_37);
+Obj v__3514383_37 = R[1];
+Obj v__3514760_37 = PRIM_CDR(v__3514383_37);
+Obj v__3514761_37 = PRIM_CDR(v__3514760_37);
+Obj v__3514762_37 = PRIM_CAR(v__3514761_37);
+coraReturn(co, v__3514762_37);
 return;
 }
 }
@@ -4324,10 +4324,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513227_37 = PRIM_CDR(v_x);
-Obj v__3513228_37 = PRIM_CDR(v__3513227_37);
-coraReturn(co, v__3513228_37);
+Obj v__3514382_37 = R[1];
+Obj v__3514757_37 = PRIM_CDR(v__3514382_37);
+Obj v__3514758_37 = PRIM_CDR(v__3514757_37);
+coraReturn(co, v__3514758_37);
 return;
 }
 }
@@ -4337,10 +4337,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513224_37 = PRIM_CAR(v_x);
-Obj v__3513225_37 = PRIM_CDR(v__3513224_37);
-coraReturn(co, v__3513225_37);
+Obj v__3514381_37 = R[1];
+Obj v__3514754_37 = PRIM_CAR(v__3514381_37);
+Obj v__3514755_37 = PRIM_CDR(v__3514754_37);
+coraReturn(co, v__3514755_37);
 return;
 }
 }
@@ -4350,10 +4350,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513221_37 = PRIM_CAR(v_x);
-Obj v__3513222_37 = PRIM_CAR(v__3513221_37);
-coraReturn(co, v__3513222_37);
+Obj v__3514380_37 = R[1];
+Obj v__3514751_37 = PRIM_CAR(v__3514380_37);
+Obj v__3514752_37 = PRIM_CAR(v__3514751_37);
+coraReturn(co, v__3514752_37);
 return;
 }
 }
@@ -4363,10 +4363,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513218_37 = PRIM_CDR(v_x);
-Obj v__3513219_37 = PRIM_CAR(v__3513218_37);
-coraReturn(co, v__3513219_37);
+Obj v__3514379_37 = R[1];
+Obj v__3514748_37 = PRIM_CDR(v__3514379_37);
+Obj v__3514749_37 = PRIM_CAR(v__3514748_37);
+coraReturn(co, v__3514749_37);
 return;
 }
 }
@@ -4376,9 +4376,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3513216_37 = PRIM_EQ(v_x, Nil);
-coraReturn(co, v__3513216_37);
+Obj v__3514378_37 = R[1];
+Obj v__3514746_37 = PRIM_EQ(v__3514378_37, Nil);
+coraReturn(co, v__3514746_37);
 return;
 }
 }
diff --git a/lib/peval.cora b/lib/peval.cora
index a9bf083..b221499 100644
--- a/lib/peval.cora
+++ b/lib/peval.cora
@@ -23,10 +23,27 @@
 	       ['cons _ ()] => 1
 	       ['cons _ more] => (+ 1 (const-list-length more)))
 
-	 (defun shrink-env (params env)
-	   (filter (lambda (kv)
-		     (not (member (car kv) params)))
-		   env))
+	 ;; Every binder that stays in the result gets a fresh name, so that nothing
+	 ;; put in the place of a variable can be captured. env maps the variables in
+	 ;; scope to their new names, or to what they are replaced by.
+	 (func fresh-params
+	       ret [] env k => (k (reverse ret) env)
+	       ret [p . ps] env k => (let q (gensym)
+					  (fresh-params (cons q ret) ps (cons (cons p q) env) k)))
+
+	 (defun local? (x env)
+	   (and (symbol? x)
+		(not (null? (filter (lambda (kv) (= (cdr kv) x)) env)))))
+
+	 ;; no effect is lost, and no error, when this is not evaluated
+	 (defun droppable? (x env)
+	   (or (side-effect-free? x)
+	       (or (local? x env)
+		   (and (cons? x)
+			(and (= (car x) 'cons)
+			     (and (= (length x) 3)
+				  (and (droppable? (cadr x) env)
+				       (droppable? (caddr x) env))))))))
 
 	 (func peval
 	       env x => (let find (assq x env)
@@ -43,7 +60,9 @@
 				     (if (and (cons? a1) (= (car a1) 'lambda))
 					 (peval env b)
 					 ['do a1 (peval env b)]))
-	       env ['lambda params body] => ['lambda params (peval (shrink-env params env) body)]
+	       env ['lambda params body] => (fresh-params () params env
+							  (lambda (params1 env1)
+							    ['lambda params1 (peval env1 body)]))
 	       env ['let a b c] => (peval-let a (peval env b) c env)
 	       env [f . args] => (peval-app (map (peval env) [f . args]) env)
 	       env x => x)
@@ -71,7 +90,7 @@
 
 	 (defun peval-let (var val body env)
 	   (if (or (const? val)            ;; val is const
-		   (symbol? val)           ;; val is symbol
+		   (local? val env)        ;; val is a local variable, those never change
 		   (and (const-list? val) (< (const-list-length val) 3))) ;; val is short const list
 	       (peval [(cons var val) . env] body)
 	       (let refs (ref-count var body)
@@ -82,8 +101,10 @@
 			   ['do val (peval env body)]))
 		      ((and (= refs 1) safe) ;; var is used exactly once and val is side effect free
 		       (peval [(cons var val) . env] body))
-		      (true ['let var val (peval (shrink-env [var] env) body)])))))
-		      
+		      (true (fresh-params () [var] env
+					  (lambda (vars env1)
+					    ['let (car vars) val (peval env1 body)])))))))
+
 	 ;; collect the static const to env
 	 (defun extend-env (params args env k)
 	   (extend-env-h () () params args env k))
@@ -101,20 +122,21 @@
 	       params args body => [['lambda params body] . args])
 
 	 (func peval-app
-	       ['cons? ['cons _ _]] env => true
-	       ['car ['cons x _]] env => x
-	       ['cdr ['cons _ x]] env => x
+	       ['cons? ['cons x y]] env => true where (and (droppable? x env) (droppable? y env))
+	       ['car ['cons x y]] env => x where (droppable? y env)
+	       ['cdr ['cons x y]] env => y where (droppable? x env)
 	       ['and true true] env => true
 	       ['null? ()] env => true
-	       ['null? ['cons _ _]] env => false
+	       ['null? ['cons x y]] env => false where (and (droppable? x env) (droppable? y env))
 	       ['not true] env => false
 	       ['not false] env => true
 	       ['+ x y] env => (+ x y) where (and (number? x) (number? y))
 	       ['- x y] env => (- x y) where (and (number? x) (number? y))
 	       [['lambda params body] . args] env => (extend-env params args env
 								 (lambda (params1 args1 env1)
-								   (let body1 (peval (shrink-env params1 env1) body)
-									(peval-apply-lambda params1 args1 body1))))
+								   (fresh-params () params1 env1
+										 (lambda (params2 env2)
+										   (peval-apply-lambda params2 args1 (peval env2 body))))))
 	       x env => x)
 
 	 ;; (peval () `(let example1 (lambda (a b c)
diff --git a/lib/toc.c b/lib/toc.c
index 41e5931..346aa7a 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -301,152 +301,152 @@ return;
 }
 case 1:
 {
-Obj v__3519275_37= co->res;
-Obj v__3519281_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v__3519287_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun113, 2, 0));
-Obj v__3519309_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun115, 3, 0));
-Obj v__3519333_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun117, 4, 0));
-Obj v__3519345_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun120, 3, 0));
-Obj v__3519386_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun125, 1, 0));
-Obj v__3519425_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun128, 4, 0));
-Obj v__3519477_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj v__3519478_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun134, 2, 0));
-Obj v__3519492_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun142, 1, 0));
-Obj v__3519493_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v__3519506_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun144, 1, 0));
-Obj v__3519516_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun145, 2, 0));
-coraReturn(co, v__3519516_37);
+Obj v__3521474_37= co->res;
+Obj v__3521480_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
+Obj v__3521486_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3521508_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun115, 3, 0));
+Obj v__3521532_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun117, 4, 0));
+Obj v__3521544_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun120, 3, 0));
+Obj v__3521585_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun125, 1, 0));
+Obj v__3521624_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun128, 4, 0));
+Obj v__3521676_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
+Obj v__3521677_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun134, 2, 0));
+Obj v__3521691_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun142, 1, 0));
+Obj v__3521692_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v__3521705_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun144, 1, 0));
+Obj v__3521715_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun145, 2, 0));
+coraReturn(co, v__3521715_37);
 return;
 }
 case 2:
 {
-Obj v__3517872_37= co->res;
-Obj v__3517873_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj v__3517888_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3517894_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3517904_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3517905_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3517912_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3517913_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3517914_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517913_37);
-Obj v__3517915_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3517914_37);
-Obj v__3517916_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3517917_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517916_37);
-Obj v__3517918_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3517917_37);
-Obj v__3517919_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3517920_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517919_37);
-Obj v__3517921_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3517920_37);
-Obj v__3517922_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3517923_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517922_37);
-Obj v__3517924_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3517923_37);
-Obj v__3517925_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3517926_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517925_37);
-Obj v__3517927_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3517926_37);
-Obj v__3517928_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3517929_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517928_37);
-Obj v__3517930_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3517929_37);
-Obj v__3517931_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3517932_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517931_37);
-Obj v__3517933_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3517932_37);
-Obj v__3517934_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3517935_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517934_37);
-Obj v__3517936_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3517935_37);
-Obj v__3517937_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3517938_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517937_37);
-Obj v__3517939_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3517938_37);
-Obj v__3517940_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3517941_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517940_37);
-Obj v__3517942_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3517941_37);
-Obj v__3517943_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3517944_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517943_37);
-Obj v__3517945_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3517944_37);
-Obj v__3517946_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3517947_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3517946_37);
-Obj v__3517948_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3517947_37);
-Obj v__3517949_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3517950_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3517949_37);
-Obj v__3517951_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3517950_37);
-Obj v__3517952_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3517953_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517952_37);
-Obj v__3517954_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3517953_37);
-Obj v__3517955_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3517956_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517955_37);
-Obj v__3517957_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3517956_37);
-Obj v__3517958_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3517959_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517958_37);
-Obj v__3517960_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3517959_37);
-Obj v__3517961_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3517962_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3517961_37);
-Obj v__3517963_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3517962_37);
-Obj v__3517964_37 = makeCons(co->gc, v__3517963_37, Nil);
-Obj v__3517965_37 = makeCons(co->gc, v__3517960_37, v__3517964_37);
-Obj v__3517966_37 = makeCons(co->gc, v__3517957_37, v__3517965_37);
-Obj v__3517967_37 = makeCons(co->gc, v__3517954_37, v__3517966_37);
-Obj v__3517968_37 = makeCons(co->gc, v__3517951_37, v__3517967_37);
-Obj v__3517969_37 = makeCons(co->gc, v__3517948_37, v__3517968_37);
-Obj v__3517970_37 = makeCons(co->gc, v__3517945_37, v__3517969_37);
-Obj v__3517971_37 = makeCons(co->gc, v__3517942_37, v__3517970_37);
-Obj v__3517972_37 = makeCons(co->gc, v__3517939_37, v__3517971_37);
-Obj v__3517973_37 = makeCons(co->gc, v__3517936_37, v__3517972_37);
-Obj v__3517974_37 = makeCons(co->gc, v__3517933_37, v__3517973_37);
-Obj v__3517975_37 = makeCons(co->gc, v__3517930_37, v__3517974_37);
-Obj v__3517976_37 = makeCons(co->gc, v__3517927_37, v__3517975_37);
-Obj v__3517977_37 = makeCons(co->gc, v__3517924_37, v__3517976_37);
-Obj v__3517978_37 = makeCons(co->gc, v__3517921_37, v__3517977_37);
-Obj v__3517979_37 = makeCons(co->gc, v__3517918_37, v__3517978_37);
-Obj v__3517980_37 = makeCons(co->gc, v__3517915_37, v__3517979_37);
-Obj v__3517981_37 = primSet(co, getBinding(co, packageID, 122).name, v__3517980_37);
-Obj v__3517985_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3517988_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3517991_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3517996_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3518211_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun22, 3, 0));
-Obj v__3518222_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj v__3518233_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj v__3518294_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun33, 1, 0));
-Obj v__3518469_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun43, 1, 0));
-Obj v__3518542_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun46, 2, 0));
-Obj v__3518545_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun47, 1, 0));
-Obj v__3518682_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3518705_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun59, 3, 0));
-Obj v__3518782_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun63, 2, 0));
-Obj v__3518813_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun67, 3, 0));
-Obj v__3518819_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun70, 4, 0));
-Obj v__3518824_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun72, 2, 0));
-Obj v__3518833_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun74, 1, 0));
-Obj v__3518884_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun76, 2, 0));
-Obj v__3518892_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj v__3518899_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun78, 2, 0));
-Obj v__3518904_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun79, 2, 0));
-Obj v__3518910_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun80, 3, 0));
-Obj v__3518911_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v__3518918_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj v__3518925_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun85, 5, 0));
-Obj v__3519212_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj v__3519226_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun100, 5, 0));
-Obj v__3519248_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun102, 5, 0));
-Obj v__3519250_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v__3519254_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v__3519255_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj v__3519256_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v__3519257_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v__3519258_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj v__3519265_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 1, 0));
-Obj v__3519272_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun110, 2, 0));
+Obj v__3520071_37= co->res;
+Obj v__3520072_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
+Obj v__3520087_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3520093_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3520103_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3520104_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3520111_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3520112_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3520113_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520112_37);
+Obj v__3520114_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520113_37);
+Obj v__3520115_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3520116_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520115_37);
+Obj v__3520117_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520116_37);
+Obj v__3520118_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3520119_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520118_37);
+Obj v__3520120_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520119_37);
+Obj v__3520121_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3520122_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520121_37);
+Obj v__3520123_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520122_37);
+Obj v__3520124_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3520125_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520124_37);
+Obj v__3520126_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520125_37);
+Obj v__3520127_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3520128_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520127_37);
+Obj v__3520129_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520128_37);
+Obj v__3520130_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3520131_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520130_37);
+Obj v__3520132_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520131_37);
+Obj v__3520133_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3520134_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520133_37);
+Obj v__3520135_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520134_37);
+Obj v__3520136_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3520137_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520136_37);
+Obj v__3520138_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520137_37);
+Obj v__3520139_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3520140_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520139_37);
+Obj v__3520141_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520140_37);
+Obj v__3520142_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3520143_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520142_37);
+Obj v__3520144_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520143_37);
+Obj v__3520145_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3520146_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520145_37);
+Obj v__3520147_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520146_37);
+Obj v__3520148_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3520149_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520148_37);
+Obj v__3520150_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520149_37);
+Obj v__3520151_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3520152_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520151_37);
+Obj v__3520153_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520152_37);
+Obj v__3520154_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3520155_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520154_37);
+Obj v__3520156_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3520155_37);
+Obj v__3520157_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3520158_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520157_37);
+Obj v__3520159_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3520158_37);
+Obj v__3520160_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3520161_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520160_37);
+Obj v__3520162_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3520161_37);
+Obj v__3520163_37 = makeCons(co->gc, v__3520162_37, Nil);
+Obj v__3520164_37 = makeCons(co->gc, v__3520159_37, v__3520163_37);
+Obj v__3520165_37 = makeCons(co->gc, v__3520156_37, v__3520164_37);
+Obj v__3520166_37 = makeCons(co->gc, v__3520153_37, v__3520165_37);
+Obj v__3520167_37 = makeCons(co->gc, v__3520150_37, v__3520166_37);
+Obj v__3520168_37 = makeCons(co->gc, v__3520147_37, v__3520167_37);
+Obj v__3520169_37 = makeCons(co->gc, v__3520144_37, v__3520168_37);
+Obj v__3520170_37 = makeCons(co->gc, v__3520141_37, v__3520169_37);
+Obj v__3520171_37 = makeCons(co->gc, v__3520138_37, v__3520170_37);
+Obj v__3520172_37 = makeCons(co->gc, v__3520135_37, v__3520171_37);
+Obj v__3520173_37 = makeCons(co->gc, v__3520132_37, v__3520172_37);
+Obj v__3520174_37 = makeCons(co->gc, v__3520129_37, v__3520173_37);
+Obj v__3520175_37 = makeCons(co->gc, v__3520126_37, v__3520174_37);
+Obj v__3520176_37 = makeCons(co->gc, v__3520123_37, v__3520175_37);
+Obj v__3520177_37 = makeCons(co->gc, v__3520120_37, v__3520176_37);
+Obj v__3520178_37 = makeCons(co->gc, v__3520117_37, v__3520177_37);
+Obj v__3520179_37 = makeCons(co->gc, v__3520114_37, v__3520178_37);
+Obj v__3520180_37 = primSet(co, getBinding(co, packageID, 122).name, v__3520179_37);
+Obj v__3520184_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3520187_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3520190_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3520195_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3520410_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun22, 3, 0));
+Obj v__3520421_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
+Obj v__3520432_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun26, 2, 0));
+Obj v__3520493_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3520668_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun43, 1, 0));
+Obj v__3520741_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun46, 2, 0));
+Obj v__3520744_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun47, 1, 0));
+Obj v__3520881_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3520904_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun59, 3, 0));
+Obj v__3520981_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun63, 2, 0));
+Obj v__3521012_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun67, 3, 0));
+Obj v__3521018_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun70, 4, 0));
+Obj v__3521023_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun72, 2, 0));
+Obj v__3521032_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3521083_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun76, 2, 0));
+Obj v__3521091_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun77, 2, 0));
+Obj v__3521098_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun78, 2, 0));
+Obj v__3521103_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun79, 2, 0));
+Obj v__3521109_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun80, 3, 0));
+Obj v__3521110_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3521117_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun83, 5, 0));
+Obj v__3521124_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun85, 5, 0));
+Obj v__3521411_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun98, 5, 0));
+Obj v__3521425_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun100, 5, 0));
+Obj v__3521447_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun102, 5, 0));
+Obj v__3521449_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun103, 2, 0));
+Obj v__3521453_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3521454_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj v__3521455_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
+Obj v__3521456_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3521457_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj v__3521464_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 1, 0));
+Obj v__3521471_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun110, 2, 0));
 saveCont(co, clofun146, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun111, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3517871_37= co->res;
+Obj v__3520070_37= co->res;
 saveCont(co, clofun146, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3517870_37= co->res;
+Obj v__3520069_37= co->res;
 saveCont(co, clofun146, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -458,96 +458,96 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_from = R[1];
-Obj v_to = R[2];
-Obj v__3519507_37 = primGenSym(co);
-Obj v__3517867_37 = v__3519507_37;
-Obj v__3519508_37 = primSet(co, v__3517867_37, Nil);
-R[1] = v_from;
-R[2] = v_to;
-R[3] = v__3517867_37;
+Obj v__3519795_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3521706_37 = primGenSym(co);
+Obj v__3520066_37 = v__3521706_37;
+Obj v__3521707_37 = primSet(co, v__3520066_37, Nil);
+R[1] = v__3519795_37;
+R[2] = v__3519796_37;
+R[3] = v__3520066_37;
 saveCont(co, clofun145, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3517867_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3520066_37);
 return;
 }
 case 1:
 {
-Obj v__3519515_37= co->res;
-Obj v__3517869_37 = R[1];
+Obj v__3521714_37= co->res;
+Obj v__3520068_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3517869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3520068_37);
 return;
 }
 case 2:
 {
-Obj v__3519514_37= co->res;
-Obj v__3517868_37 = R[1];
-Obj v__3517869_37 = R[2];
-R[1] = v__3517869_37;
+Obj v__3521713_37= co->res;
+Obj v__3520067_37 = R[1];
+Obj v__3520068_37 = R[2];
+R[1] = v__3520068_37;
 saveCont(co, clofun145, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3517869_37, v__3517868_37, v__3519514_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3520068_37, v__3520067_37, v__3521713_37);
 return;
 }
 case 3:
 {
-Obj v__3519513_37= co->res;
-Obj v__3517867_37 = R[1];
-Obj v__3517868_37 = R[2];
-Obj v__3517869_37 = v__3519513_37;
-R[1] = v__3517868_37;
-R[2] = v__3517869_37;
+Obj v__3521712_37= co->res;
+Obj v__3520066_37 = R[1];
+Obj v__3520067_37 = R[2];
+Obj v__3520068_37 = v__3521712_37;
+R[1] = v__3520067_37;
+R[2] = v__3520068_37;
 saveCont(co, clofun145, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517867_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520066_37);
 return;
 }
 case 4:
 {
-Obj v__3519512_37= co->res;
-Obj v_to = R[1];
-Obj v__3517867_37 = R[2];
-Obj v__3517868_37 = v__3519512_37;
-R[1] = v__3517867_37;
-R[2] = v__3517868_37;
+Obj v__3521711_37= co->res;
+Obj v__3519796_37 = R[1];
+Obj v__3520066_37 = R[2];
+Obj v__3520067_37 = v__3521711_37;
+R[1] = v__3520066_37;
+R[2] = v__3520067_37;
 saveCont(co, clofun145, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v_to);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519796_37);
 return;
 }
 case 5:
 {
-Obj v__3519511_37= co->res;
-Obj v__3519509_37 = R[1];
-Obj v_to = R[2];
-Obj v__3517867_37 = R[3];
-R[1] = v_to;
-R[2] = v__3517867_37;
+Obj v__3521710_37= co->res;
+Obj v__3521708_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3520066_37 = R[3];
+R[1] = v__3519796_37;
+R[2] = v__3520066_37;
 saveCont(co, clofun145, 4, R);
-coraCall1(co, v__3519509_37, v__3519511_37);
+coraCall1(co, v__3521708_37, v__3521710_37);
 return;
 }
 case 6:
 {
-Obj v__3519510_37= co->res;
-Obj v__3519509_37 = R[1];
-Obj v_to = R[2];
-Obj v__3517867_37 = R[3];
-R[1] = v__3519509_37;
-R[2] = v_to;
-R[3] = v__3517867_37;
+Obj v__3521709_37= co->res;
+Obj v__3521708_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3520066_37 = R[3];
+R[1] = v__3521708_37;
+R[2] = v__3519796_37;
+R[3] = v__3520066_37;
 saveCont(co, clofun145, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3519510_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3521709_37);
 return;
 }
 case 7:
 {
-Obj v__3519509_37= co->res;
-Obj v_from = R[1];
-Obj v_to = R[2];
-Obj v__3517867_37 = R[3];
-R[1] = v__3519509_37;
-R[2] = v_to;
-R[3] = v__3517867_37;
+Obj v__3521708_37= co->res;
+Obj v__3519795_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3520066_37 = R[3];
+R[1] = v__3521708_37;
+R[2] = v__3519796_37;
+R[3] = v__3520066_37;
 saveCont(co, clofun145, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v_from);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519795_37);
 return;
 }
 }
@@ -557,97 +557,97 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_file_45path = R[1];
+Obj v__3519793_37 = R[1];
 saveCont(co, clofun144, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v_file_45path);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v__3519793_37);
 return;
 }
 case 1:
 {
-Obj v__3519501_37= co->res;
-Obj v__3517863_37 = R[1];
+Obj v__3521700_37= co->res;
+Obj v__3520062_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520062_37);
 return;
 }
 case 2:
 {
-Obj v__3519500_37= co->res;
-Obj v__3517863_37 = R[1];
-R[1] = v__3517863_37;
+Obj v__3521699_37= co->res;
+Obj v__3520062_37 = R[1];
+R[1] = v__3520062_37;
 saveCont(co, clofun144, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520062_37);
 return;
 }
 case 3:
 {
-Obj v__3519503_37= co->res;
-Obj v__3517863_37 = R[1];
+Obj v__3521702_37= co->res;
+Obj v__3520062_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520062_37);
 return;
 }
 case 4:
 {
-Obj v__3519502_37= co->res;
-Obj v__3517863_37 = R[1];
-R[1] = v__3517863_37;
+Obj v__3521701_37= co->res;
+Obj v__3520062_37 = R[1];
+R[1] = v__3520062_37;
 saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520062_37);
 return;
 }
 case 5:
 {
-Obj v__3519505_37= co->res;
-Obj v__3517863_37 = R[1];
+Obj v__3521704_37= co->res;
+Obj v__3520062_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520062_37);
 return;
 }
 case 6:
 {
-Obj v__3519504_37= co->res;
-Obj v__3517863_37 = R[1];
-R[1] = v__3517863_37;
+Obj v__3521703_37= co->res;
+Obj v__3520062_37 = R[1];
+R[1] = v__3520062_37;
 saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520062_37);
 return;
 }
 case 7:
 {
-Obj v__3519497_37= co->res;
-Obj v__3517866_37 = R[1];
-Obj v__3517863_37 = R[2];
-if (True == v__3519497_37) {
-Obj v__3519498_37 = PRIM_CAR(v__3517863_37);
-Obj v__3519499_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519498_37);
-if (True == v__3519499_37) {
-R[1] = v__3517863_37;
+Obj v__3521696_37= co->res;
+Obj v__3520065_37 = R[1];
+Obj v__3520062_37 = R[2];
+if (True == v__3521696_37) {
+Obj v__3521697_37 = PRIM_CAR(v__3520062_37);
+Obj v__3521698_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521697_37);
+if (True == v__3521698_37) {
+R[1] = v__3520062_37;
 saveCont(co, clofun144, 2, R);
-coraCall1(co, v__3517866_37, True);
+coraCall1(co, v__3520065_37, True);
 return;
 } else {
-R[1] = v__3517863_37;
+R[1] = v__3520062_37;
 saveCont(co, clofun144, 4, R);
-coraCall1(co, v__3517866_37, False);
+coraCall1(co, v__3520065_37, False);
 return;
 }
 } else {
-R[1] = v__3517863_37;
+R[1] = v__3520062_37;
 saveCont(co, clofun144, 6, R);
-coraCall1(co, v__3517866_37, False);
+coraCall1(co, v__3520065_37, False);
 return;
 }
 }
 case 8:
 {
-Obj v__3519494_37= co->res;
-Obj v__3517863_37 = v__3519494_37;
-Obj v__3517866_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3517863_37);
-R[1] = v__3517866_37;
-R[2] = v__3517863_37;
+Obj v__3521693_37= co->res;
+Obj v__3520062_37 = v__3521693_37;
+Obj v__3520065_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3520062_37);
+R[1] = v__3520065_37;
+R[2] = v__3520062_37;
 saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3517863_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520062_37);
 return;
 }
 }
@@ -657,14 +657,14 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517865_37 = R[1];
-if (True == v__3517865_37) {
-Obj v__3519495_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v__3519495_37);
+Obj v__3520064_37 = R[1];
+if (True == v__3520064_37) {
+Obj v__3521694_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v__3521694_37);
 return;
 } else {
-Obj v__3519496_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v__3519496_37);
+Obj v__3521695_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v__3521695_37);
 return;
 }
 }
@@ -675,27 +675,27 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517597_37 = R[1];
-Obj v__3517859_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3517597_37);
-Obj v__3519487_37 = PRIM_ISCONS(v__3517597_37);
-if (True == v__3519487_37) {
-Obj v__3519488_37 = PRIM_CAR(v__3517597_37);
-Obj v__3519489_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519488_37);
-if (True == v__3519489_37) {
-Obj v__3519490_37 = PRIM_CDR(v__3517597_37);
-Obj v__3517862_37 = v__3519490_37;
-Obj v__3519491_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3517862_37);
+Obj v__3519780_37 = R[1];
+Obj v__3520058_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3519780_37);
+Obj v__3521686_37 = PRIM_ISCONS(v__3519780_37);
+if (True == v__3521686_37) {
+Obj v__3521687_37 = PRIM_CAR(v__3519780_37);
+Obj v__3521688_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521687_37);
+if (True == v__3521688_37) {
+Obj v__3521689_37 = PRIM_CDR(v__3519780_37);
+Obj v__3520061_37 = v__3521689_37;
+Obj v__3521690_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3520061_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519491_37, makeNative(co->gc, 2, clofun141, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521690_37, makeNative(co->gc, 2, clofun141, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517859_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517859_37);
+coraCall0(co, v__3520058_37);
 return;
 }
 }
@@ -706,9 +706,9 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_body = R[1];
+Obj v__3519790_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519790_37, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
 return;
 }
 }
@@ -718,10 +718,10 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519791_37 = R[1];
+Obj v__3519792_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519791_37, v__3519792_37);
 return;
 }
 }
@@ -731,26 +731,26 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517860_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
-Obj v__3519482_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519482_37) {
-Obj v__3519483_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519484_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519483_37);
-if (True == v__3519484_37) {
-Obj v__3519485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517861_37 = v__3519485_37;
-Obj v__3519486_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517861_37);
+Obj v__3520059_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
+Obj v__3521681_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521681_37) {
+Obj v__3521682_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521683_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521682_37);
+if (True == v__3521683_37) {
+Obj v__3521684_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520060_37 = v__3521684_37;
+Obj v__3521685_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520060_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3519486_37, makeNative(co->gc, 2, clofun138, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521685_37, makeNative(co->gc, 2, clofun138, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517860_37);
+coraCall0(co, v__3520059_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517860_37);
+coraCall0(co, v__3520059_37);
 return;
 }
 }
@@ -761,9 +761,9 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_body = R[1];
+Obj v__3519785_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v_body, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519785_37, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
 return;
 }
 }
@@ -773,10 +773,10 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519786_37 = R[1];
+Obj v__3519787_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519786_37, v__3519787_37);
 return;
 }
 }
@@ -786,9 +786,9 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519479_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521678_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519479_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3521678_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
 return;
 }
 }
@@ -798,17 +798,17 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519781_37 = R[1];
+Obj v__3519782_37 = R[2];
 saveCont(co, clofun135, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519781_37, v__3519782_37);
 return;
 }
 case 1:
 {
-Obj v__3519480_37= co->res;
-Obj v__3519481_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519480_37);
-coraReturn(co, v__3519481_37);
+Obj v__3521679_37= co->res;
+Obj v__3521680_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521679_37);
+coraReturn(co, v__3521680_37);
 return;
 }
 }
@@ -818,14 +818,14 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_type = R[1];
-Obj v_code = R[2];
+Obj v__3519778_37 = R[1];
+Obj v__3519779_37 = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v_type, v_code);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3519778_37, v__3519779_37);
 return;
 } else {
-coraReturn(co, v_code);
+coraReturn(co, v__3519779_37);
 return;
 }
 }
@@ -836,50 +836,50 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517590_37 = R[1];
-Obj v__3517591_37 = R[2];
-Obj v__3517848_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3517590_37, v__3517591_37);
-Obj v__3519465_37 = PRIM_ISCONS(v__3517590_37);
-if (True == v__3519465_37) {
-Obj v__3519466_37 = PRIM_CAR(v__3517590_37);
-Obj v__3519467_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519466_37);
-if (True == v__3519467_37) {
-Obj v__3519468_37 = PRIM_CDR(v__3517590_37);
-Obj v__3519469_37 = PRIM_ISCONS(v__3519468_37);
-if (True == v__3519469_37) {
-Obj v__3519470_37 = PRIM_CDR(v__3517590_37);
-Obj v__3519471_37 = PRIM_CAR(v__3519470_37);
-Obj v__3517857_37 = v__3519471_37;
-Obj v__3519472_37 = PRIM_CDR(v__3517590_37);
-Obj v__3519473_37 = PRIM_CDR(v__3519472_37);
-Obj v__3517858_37 = v__3519473_37;
-R[1] = v__3517857_37;
+Obj v__3519765_37 = R[1];
+Obj v__3519766_37 = R[2];
+Obj v__3520047_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3519765_37, v__3519766_37);
+Obj v__3521664_37 = PRIM_ISCONS(v__3519765_37);
+if (True == v__3521664_37) {
+Obj v__3521665_37 = PRIM_CAR(v__3519765_37);
+Obj v__3521666_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521665_37);
+if (True == v__3521666_37) {
+Obj v__3521667_37 = PRIM_CDR(v__3519765_37);
+Obj v__3521668_37 = PRIM_ISCONS(v__3521667_37);
+if (True == v__3521668_37) {
+Obj v__3521669_37 = PRIM_CDR(v__3519765_37);
+Obj v__3521670_37 = PRIM_CAR(v__3521669_37);
+Obj v__3520056_37 = v__3521670_37;
+Obj v__3521671_37 = PRIM_CDR(v__3519765_37);
+Obj v__3521672_37 = PRIM_CDR(v__3521671_37);
+Obj v__3520057_37 = v__3521672_37;
+R[1] = v__3520056_37;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517858_37, v__3517591_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520057_37, v__3519766_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517848_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517848_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517848_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519474_37= co->res;
-Obj v__3517857_37 = R[1];
-Obj v__3519475_37 = makeCons(co->gc, v__3517857_37, v__3519474_37);
-Obj v__3519476_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3519475_37);
-coraReturn(co, v__3519476_37);
+Obj v__3521673_37= co->res;
+Obj v__3520056_37 = R[1];
+Obj v__3521674_37 = makeCons(co->gc, v__3520056_37, v__3521673_37);
+Obj v__3521675_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3521674_37);
+coraReturn(co, v__3521675_37);
 return;
 }
 }
@@ -889,69 +889,69 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517849_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519444_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519444_37) {
-Obj v__3519445_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519446_37 = PRIM_ISCONS(v__3519445_37);
-if (True == v__3519446_37) {
-Obj v__3519447_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519448_37 = PRIM_CAR(v__3519447_37);
-Obj v__3519449_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519448_37);
-if (True == v__3519449_37) {
-Obj v__3519450_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519451_37 = PRIM_CDR(v__3519450_37);
-Obj v__3519452_37 = PRIM_ISCONS(v__3519451_37);
-if (True == v__3519452_37) {
-Obj v__3519453_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519454_37 = PRIM_CDR(v__3519453_37);
-Obj v__3519455_37 = PRIM_CAR(v__3519454_37);
-Obj v__3517855_37 = v__3519455_37;
-Obj v__3519456_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519457_37 = PRIM_CDR(v__3519456_37);
-Obj v__3519458_37 = PRIM_CDR(v__3519457_37);
-Obj v__3519459_37 = PRIM_EQ(Nil, v__3519458_37);
-if (True == v__3519459_37) {
-Obj v__3519460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517856_37 = v__3519460_37;
-Obj v__3519461_37 = makeCons(co->gc, v__3517855_37, Nil);
-Obj v__3519462_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3519461_37);
-R[1] = v__3519462_37;
+Obj v__3520048_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521643_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521643_37) {
+Obj v__3521644_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521645_37 = PRIM_ISCONS(v__3521644_37);
+if (True == v__3521645_37) {
+Obj v__3521646_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521647_37 = PRIM_CAR(v__3521646_37);
+Obj v__3521648_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521647_37);
+if (True == v__3521648_37) {
+Obj v__3521649_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521650_37 = PRIM_CDR(v__3521649_37);
+Obj v__3521651_37 = PRIM_ISCONS(v__3521650_37);
+if (True == v__3521651_37) {
+Obj v__3521652_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521653_37 = PRIM_CDR(v__3521652_37);
+Obj v__3521654_37 = PRIM_CAR(v__3521653_37);
+Obj v__3520054_37 = v__3521654_37;
+Obj v__3521655_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521656_37 = PRIM_CDR(v__3521655_37);
+Obj v__3521657_37 = PRIM_CDR(v__3521656_37);
+Obj v__3521658_37 = PRIM_EQ(Nil, v__3521657_37);
+if (True == v__3521658_37) {
+Obj v__3521659_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520055_37 = v__3521659_37;
+Obj v__3521660_37 = makeCons(co->gc, v__3520054_37, Nil);
+Obj v__3521661_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3521660_37);
+R[1] = v__3521661_37;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517856_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520055_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517849_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517849_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517849_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517849_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517849_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519463_37= co->res;
-Obj v__3519462_37 = R[1];
-Obj v__3519464_37 = makeCons(co->gc, v__3519462_37, v__3519463_37);
-coraReturn(co, v__3519464_37);
+Obj v__3521662_37= co->res;
+Obj v__3521661_37 = R[1];
+Obj v__3521663_37 = makeCons(co->gc, v__3521661_37, v__3521662_37);
+coraReturn(co, v__3521663_37);
 return;
 }
 }
@@ -961,48 +961,48 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517850_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3519432_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519432_37) {
-Obj v__3519433_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519434_37 = PRIM_ISCONS(v__3519433_37);
-if (True == v__3519434_37) {
-Obj v__3519435_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519436_37 = PRIM_CAR(v__3519435_37);
-Obj v__3519437_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519436_37);
-if (True == v__3519437_37) {
-Obj v__3519438_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519439_37 = PRIM_CDR(v__3519438_37);
-Obj v__3517853_37 = v__3519439_37;
-Obj v__3519440_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517854_37 = v__3519440_37;
-Obj v__3519441_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3517853_37);
-R[1] = v__3519441_37;
+Obj v__3520049_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521631_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521631_37) {
+Obj v__3521632_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521633_37 = PRIM_ISCONS(v__3521632_37);
+if (True == v__3521633_37) {
+Obj v__3521634_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521635_37 = PRIM_CAR(v__3521634_37);
+Obj v__3521636_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521635_37);
+if (True == v__3521636_37) {
+Obj v__3521637_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521638_37 = PRIM_CDR(v__3521637_37);
+Obj v__3520052_37 = v__3521638_37;
+Obj v__3521639_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520053_37 = v__3521639_37;
+Obj v__3521640_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520052_37);
+R[1] = v__3521640_37;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517854_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520053_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517850_37);
+coraCall0(co, v__3520049_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517850_37);
+coraCall0(co, v__3520049_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517850_37);
+coraCall0(co, v__3520049_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519442_37= co->res;
-Obj v__3519441_37 = R[1];
-Obj v__3519443_37 = makeCons(co->gc, v__3519441_37, v__3519442_37);
-coraReturn(co, v__3519443_37);
+Obj v__3521641_37= co->res;
+Obj v__3521640_37 = R[1];
+Obj v__3521642_37 = makeCons(co->gc, v__3521640_37, v__3521641_37);
+coraReturn(co, v__3521642_37);
 return;
 }
 }
@@ -1012,33 +1012,33 @@ static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517851_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3519426_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519426_37) {
-Obj v__3519427_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519428_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519427_37);
-if (True == v__3519428_37) {
-Obj v__3519429_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517852_37 = v__3519429_37;
+Obj v__3520050_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3521625_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521625_37) {
+Obj v__3521626_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521627_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521626_37);
+if (True == v__3521627_37) {
+Obj v__3521628_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520051_37 = v__3521628_37;
 saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3517852_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520051_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517851_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517851_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519430_37= co->res;
-Obj v__3519431_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3519430_37);
-coraReturn(co, v__3519431_37);
+Obj v__3521629_37= co->res;
+Obj v__3521630_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521629_37);
+coraReturn(co, v__3521630_37);
 return;
 }
 }
@@ -1059,73 +1059,73 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517582_37 = R[1];
-Obj v__3517583_37 = R[2];
-Obj v__3517584_37 = R[3];
-Obj v__3517585_37 = R[4];
-Obj v__3519387_37 = PRIM_EQ(Nil, v__3517582_37);
-if (True == v__3519387_37) {
-R[1] = v__3517584_37;
-R[2] = v__3517585_37;
+Obj v__3519745_37 = R[1];
+Obj v__3519746_37 = R[2];
+Obj v__3519747_37 = R[3];
+Obj v__3519748_37 = R[4];
+Obj v__3521586_37 = PRIM_EQ(Nil, v__3519745_37);
+if (True == v__3521586_37) {
+R[1] = v__3519747_37;
+R[2] = v__3519748_37;
 saveCont(co, clofun128, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517583_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519746_37);
 return;
 } else {
-Obj v__3517840_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3517582_37, v__3517583_37, v__3517584_37, v__3517585_37);
-Obj v__3519414_37 = PRIM_ISCONS(v__3517582_37);
-if (True == v__3519414_37) {
-Obj v__3519415_37 = PRIM_CAR(v__3517582_37);
-Obj v__3519416_37 = PRIM_ISCONS(v__3519415_37);
-if (True == v__3519416_37) {
-Obj v__3519417_37 = PRIM_CAR(v__3517582_37);
-Obj v__3519418_37 = PRIM_CAR(v__3519417_37);
-Obj v__3519419_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3519418_37);
-if (True == v__3519419_37) {
-Obj v__3519420_37 = PRIM_CAR(v__3517582_37);
-Obj v__3519421_37 = PRIM_CDR(v__3519420_37);
-Obj v__3517846_37 = v__3519421_37;
-Obj v__3519422_37 = PRIM_CDR(v__3517582_37);
-Obj v__3517847_37 = v__3519422_37;
-Obj v__3519423_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3517846_37);
-Obj v__3519424_37 = makeCons(co->gc, v__3519423_37, v__3517583_37);
+Obj v__3520039_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3519745_37, v__3519746_37, v__3519747_37, v__3519748_37);
+Obj v__3521613_37 = PRIM_ISCONS(v__3519745_37);
+if (True == v__3521613_37) {
+Obj v__3521614_37 = PRIM_CAR(v__3519745_37);
+Obj v__3521615_37 = PRIM_ISCONS(v__3521614_37);
+if (True == v__3521615_37) {
+Obj v__3521616_37 = PRIM_CAR(v__3519745_37);
+Obj v__3521617_37 = PRIM_CAR(v__3521616_37);
+Obj v__3521618_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3521617_37);
+if (True == v__3521618_37) {
+Obj v__3521619_37 = PRIM_CAR(v__3519745_37);
+Obj v__3521620_37 = PRIM_CDR(v__3521619_37);
+Obj v__3520045_37 = v__3521620_37;
+Obj v__3521621_37 = PRIM_CDR(v__3519745_37);
+Obj v__3520046_37 = v__3521621_37;
+Obj v__3521622_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520045_37);
+Obj v__3521623_37 = makeCons(co->gc, v__3521622_37, v__3519746_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517847_37, v__3519424_37, v__3517584_37, v__3517585_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520046_37, v__3521623_37, v__3519747_37, v__3519748_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517840_37);
+coraCall0(co, v__3520039_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517840_37);
+coraCall0(co, v__3520039_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517840_37);
+coraCall0(co, v__3520039_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519389_37= co->res;
-Obj v__3517585_37 = R[1];
-Obj v__3519388_37 = R[2];
+Obj v__3521588_37= co->res;
+Obj v__3519748_37 = R[1];
+Obj v__3521587_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3517585_37, v__3519388_37, v__3519389_37);
+coraCall2(co, v__3519748_37, v__3521587_37, v__3521588_37);
 return;
 }
 case 2:
 {
-Obj v__3519388_37= co->res;
-Obj v__3517584_37 = R[1];
-Obj v__3517585_37 = R[2];
-R[1] = v__3517585_37;
-R[2] = v__3519388_37;
+Obj v__3521587_37= co->res;
+Obj v__3519747_37 = R[1];
+Obj v__3519748_37 = R[2];
+R[1] = v__3519748_37;
+R[2] = v__3521587_37;
 saveCont(co, clofun128, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517584_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519747_37);
 return;
 }
 }
@@ -1135,39 +1135,39 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517841_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3519403_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519403_37) {
-Obj v__3519404_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519405_37 = PRIM_ISCONS(v__3519404_37);
-if (True == v__3519405_37) {
-Obj v__3519406_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519407_37 = PRIM_CAR(v__3519406_37);
-Obj v__3519408_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3519407_37);
-if (True == v__3519408_37) {
-Obj v__3519409_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519410_37 = PRIM_CDR(v__3519409_37);
-Obj v__3517844_37 = v__3519410_37;
-Obj v__3519411_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517845_37 = v__3519411_37;
-Obj v__3519412_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3517844_37);
-Obj v__3519413_37 = makeCons(co->gc, v__3519412_37, closureRef(R[0], 1));
+Obj v__3520040_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3521602_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521602_37) {
+Obj v__3521603_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521604_37 = PRIM_ISCONS(v__3521603_37);
+if (True == v__3521604_37) {
+Obj v__3521605_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521606_37 = PRIM_CAR(v__3521605_37);
+Obj v__3521607_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3521606_37);
+if (True == v__3521607_37) {
+Obj v__3521608_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521609_37 = PRIM_CDR(v__3521608_37);
+Obj v__3520043_37 = v__3521609_37;
+Obj v__3521610_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520044_37 = v__3521610_37;
+Obj v__3521611_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3520043_37);
+Obj v__3521612_37 = makeCons(co->gc, v__3521611_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517845_37, v__3519413_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520044_37, v__3521612_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517841_37);
+coraCall0(co, v__3520040_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517841_37);
+coraCall0(co, v__3520040_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517841_37);
+coraCall0(co, v__3520040_37);
 return;
 }
 }
@@ -1178,24 +1178,24 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519390_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519390_37) {
-Obj v__3519391_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517842_37 = v__3519391_37;
-Obj v__3519392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517843_37 = v__3519392_37;
-Obj v__3519393_37 = makeCons(co->gc, v__3517842_37, Nil);
-Obj v__3519394_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3519393_37);
-Obj v__3519395_37 = makeCons(co->gc, v__3519394_37, Nil);
-Obj v__3519396_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3519395_37);
-Obj v__3519397_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v__3519398_37 = makeCons(co->gc, v__3519397_37, Nil);
-Obj v__3519399_37 = makeCons(co->gc, v__3519396_37, v__3519398_37);
-Obj v__3519400_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3519399_37);
-Obj v__3519401_37 = makeCons(co->gc, v__3519400_37, closureRef(R[0], 1));
-Obj v__3519402_37 = makeCons(co->gc, v__3517842_37, closureRef(R[0], 2));
+Obj v__3521589_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521589_37) {
+Obj v__3521590_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520041_37 = v__3521590_37;
+Obj v__3521591_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520042_37 = v__3521591_37;
+Obj v__3521592_37 = makeCons(co->gc, v__3520041_37, Nil);
+Obj v__3521593_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3521592_37);
+Obj v__3521594_37 = makeCons(co->gc, v__3521593_37, Nil);
+Obj v__3521595_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521594_37);
+Obj v__3521596_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v__3521597_37 = makeCons(co->gc, v__3521596_37, Nil);
+Obj v__3521598_37 = makeCons(co->gc, v__3521595_37, v__3521597_37);
+Obj v__3521599_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521598_37);
+Obj v__3521600_37 = makeCons(co->gc, v__3521599_37, closureRef(R[0], 1));
+Obj v__3521601_37 = makeCons(co->gc, v__3520041_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3517843_37, v__3519401_37, v__3519402_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520042_37, v__3521600_37, v__3521601_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1210,37 +1210,37 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517576_37 = R[1];
-Obj v__3517831_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3517576_37);
-Obj v__3519377_37 = PRIM_ISCONS(v__3517576_37);
-if (True == v__3519377_37) {
-Obj v__3519378_37 = PRIM_CAR(v__3517576_37);
-Obj v__3519379_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3519378_37);
-if (True == v__3519379_37) {
-Obj v__3519380_37 = PRIM_CDR(v__3517576_37);
-Obj v__3519381_37 = PRIM_ISCONS(v__3519380_37);
-if (True == v__3519381_37) {
-Obj v__3519382_37 = PRIM_CDR(v__3517576_37);
-Obj v__3519383_37 = PRIM_CAR(v__3519382_37);
-Obj v__3519384_37 = PRIM_CDR(v__3517576_37);
-Obj v__3519385_37 = PRIM_CDR(v__3519384_37);
-Obj v__3517839_37 = v__3519385_37;
+Obj v__3519735_37 = R[1];
+Obj v__3520030_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3519735_37);
+Obj v__3521576_37 = PRIM_ISCONS(v__3519735_37);
+if (True == v__3521576_37) {
+Obj v__3521577_37 = PRIM_CAR(v__3519735_37);
+Obj v__3521578_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521577_37);
+if (True == v__3521578_37) {
+Obj v__3521579_37 = PRIM_CDR(v__3519735_37);
+Obj v__3521580_37 = PRIM_ISCONS(v__3521579_37);
+if (True == v__3521580_37) {
+Obj v__3521581_37 = PRIM_CDR(v__3519735_37);
+Obj v__3521582_37 = PRIM_CAR(v__3521581_37);
+Obj v__3521583_37 = PRIM_CDR(v__3519735_37);
+Obj v__3521584_37 = PRIM_CDR(v__3521583_37);
+Obj v__3520038_37 = v__3521584_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517839_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520038_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517831_37);
+coraCall0(co, v__3520030_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517831_37);
+coraCall0(co, v__3520030_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517831_37);
+coraCall0(co, v__3520030_37);
 return;
 }
 }
@@ -1251,25 +1251,25 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517832_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
-Obj v__3519373_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519373_37) {
-Obj v__3519374_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519375_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3519374_37);
-if (True == v__3519375_37) {
-Obj v__3519376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517838_37 = v__3519376_37;
+Obj v__3520031_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
+Obj v__3521572_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521572_37) {
+Obj v__3521573_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521574_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521573_37);
+if (True == v__3521574_37) {
+Obj v__3521575_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520037_37 = v__3521575_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520037_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517832_37);
+coraCall0(co, v__3520031_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517832_37);
+coraCall0(co, v__3520031_37);
 return;
 }
 }
@@ -1280,36 +1280,36 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517833_37 = makeNative(co->gc, 2, clofun122, 0, 1, closureRef(R[0], 0));
-Obj v__3519364_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519364_37) {
-Obj v__3519365_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519366_37 = PRIM_ISCONS(v__3519365_37);
-if (True == v__3519366_37) {
-Obj v__3519367_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519368_37 = PRIM_CAR(v__3519367_37);
-Obj v__3519369_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3519368_37);
-if (True == v__3519369_37) {
-Obj v__3519370_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519371_37 = PRIM_CDR(v__3519370_37);
-Obj v__3519372_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517837_37 = v__3519372_37;
+Obj v__3520032_37 = makeNative(co->gc, 2, clofun122, 0, 1, closureRef(R[0], 0));
+Obj v__3521563_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521563_37) {
+Obj v__3521564_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521565_37 = PRIM_ISCONS(v__3521564_37);
+if (True == v__3521565_37) {
+Obj v__3521566_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521567_37 = PRIM_CAR(v__3521566_37);
+Obj v__3521568_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521567_37);
+if (True == v__3521568_37) {
+Obj v__3521569_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521570_37 = PRIM_CDR(v__3521569_37);
+Obj v__3521571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520036_37 = v__3521571_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517837_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520036_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517833_37);
+coraCall0(co, v__3520032_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517833_37);
+coraCall0(co, v__3520032_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517833_37);
+coraCall0(co, v__3520032_37);
 return;
 }
 }
@@ -1320,67 +1320,67 @@ static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517834_37 = makeNative(co->gc, 1, clofun121, 0, 0);
-Obj v__3519346_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3519346_37) {
-Obj v__3519347_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519348_37 = PRIM_ISCONS(v__3519347_37);
-if (True == v__3519348_37) {
-Obj v__3519349_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519350_37 = PRIM_CAR(v__3519349_37);
-Obj v__3519351_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3519350_37);
-if (True == v__3519351_37) {
-Obj v__3519352_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519353_37 = PRIM_CDR(v__3519352_37);
-Obj v__3519354_37 = PRIM_ISCONS(v__3519353_37);
-if (True == v__3519354_37) {
-Obj v__3519355_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519356_37 = PRIM_CDR(v__3519355_37);
-Obj v__3519357_37 = PRIM_CAR(v__3519356_37);
-Obj v__3517835_37 = v__3519357_37;
-Obj v__3519358_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519359_37 = PRIM_CDR(v__3519358_37);
-Obj v__3519360_37 = PRIM_CDR(v__3519359_37);
-Obj v__3519361_37 = PRIM_EQ(Nil, v__3519360_37);
-if (True == v__3519361_37) {
-Obj v__3519362_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517836_37 = v__3519362_37;
-R[1] = v__3517836_37;
+Obj v__3520033_37 = makeNative(co->gc, 1, clofun121, 0, 0);
+Obj v__3521545_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521545_37) {
+Obj v__3521546_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521547_37 = PRIM_ISCONS(v__3521546_37);
+if (True == v__3521547_37) {
+Obj v__3521548_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521549_37 = PRIM_CAR(v__3521548_37);
+Obj v__3521550_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521549_37);
+if (True == v__3521550_37) {
+Obj v__3521551_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521552_37 = PRIM_CDR(v__3521551_37);
+Obj v__3521553_37 = PRIM_ISCONS(v__3521552_37);
+if (True == v__3521553_37) {
+Obj v__3521554_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521555_37 = PRIM_CDR(v__3521554_37);
+Obj v__3521556_37 = PRIM_CAR(v__3521555_37);
+Obj v__3520034_37 = v__3521556_37;
+Obj v__3521557_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521558_37 = PRIM_CDR(v__3521557_37);
+Obj v__3521559_37 = PRIM_CDR(v__3521558_37);
+Obj v__3521560_37 = PRIM_EQ(Nil, v__3521559_37);
+if (True == v__3521560_37) {
+Obj v__3521561_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520035_37 = v__3521561_37;
+R[1] = v__3520035_37;
 saveCont(co, clofun122, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3517835_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3520034_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517834_37);
+coraCall0(co, v__3520033_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517834_37);
+coraCall0(co, v__3520033_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517834_37);
+coraCall0(co, v__3520033_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517834_37);
+coraCall0(co, v__3520033_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517834_37);
+coraCall0(co, v__3520033_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519363_37= co->res;
-Obj v__3517836_37 = R[1];
+Obj v__3521562_37= co->res;
+Obj v__3520035_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3517836_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520035_37);
 return;
 }
 }
@@ -1400,118 +1400,118 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_to = R[1];
-Obj v_bc = R[2];
-Obj v_globals = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3519730_37 = R[1];
+Obj v__3519731_37 = R[2];
+Obj v__3519732_37 = R[3];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3519344_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
+Obj v__3521543_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 2, v_to, v_globals), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 2, v__3519730_37, v__3519732_37), v__3519731_37);
 return;
 }
 case 2:
 {
-Obj v__3519343_37= co->res;
-Obj v__3519341_37 = R[1];
-Obj v_to = R[2];
-Obj v_globals = R[3];
-Obj v_bc = R[4];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521542_37= co->res;
+Obj v__3521540_37 = R[1];
+Obj v__3519730_37 = R[2];
+Obj v__3519732_37 = R[3];
+Obj v__3519731_37 = R[4];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v_to, v_globals, v__3519341_37, v__3519343_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v__3519730_37, v__3519732_37, v__3521540_37, v__3521542_37);
 return;
 }
 case 3:
 {
-Obj v__3519341_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-Obj v__3519342_37 = PRIM_CAR(v_bc);
-R[1] = v__3519341_37;
-R[2] = v_to;
-R[3] = v_globals;
-R[4] = v_bc;
+Obj v__3521540_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
+Obj v__3521541_37 = PRIM_CAR(v__3519731_37);
+R[1] = v__3521540_37;
+R[2] = v__3519730_37;
+R[3] = v__3519732_37;
+R[4] = v__3519731_37;
 saveCont(co, clofun120, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519342_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3521541_37);
 return;
 }
 case 4:
 {
-Obj v__3519340_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521539_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v_bc);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519731_37);
 return;
 }
 case 5:
 {
-Obj v__3519339_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521538_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj v__3519336_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521535_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 1, v_to), v_bc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 1, v__3519730_37), v__3519731_37);
 return;
 }
 case 7:
 {
-Obj v__3519335_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521534_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 8:
 {
-Obj v__3519334_37= co->res;
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_bc = R[3];
-R[1] = v_to;
-R[2] = v_globals;
-R[3] = v_bc;
+Obj v__3521533_37= co->res;
+Obj v__3519730_37 = R[1];
+Obj v__3519732_37 = R[2];
+Obj v__3519731_37 = R[3];
+R[1] = v__3519730_37;
+R[2] = v__3519732_37;
+R[3] = v__3519731_37;
 saveCont(co, clofun120, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1521,9 +1521,9 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_group = R[1];
+Obj v__3519734_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v_group, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v__3519734_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -1533,15 +1533,15 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_group = R[1];
-Obj v__3519337_37 = PRIM_CAR(v_group);
+Obj v__3519733_37 = R[1];
+Obj v__3521536_37 = PRIM_CAR(v__3519733_37);
 saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3519337_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3521536_37);
 return;
 }
 case 1:
 {
-Obj v__3519338_37= co->res;
+Obj v__3521537_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1553,203 +1553,203 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_to = R[1];
-Obj v_globals = R[2];
-Obj v_label = R[3];
-Obj v_lam = R[4];
-R[1] = v_globals;
-R[2] = v_lam;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3519724_37 = R[1];
+Obj v__3519725_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519727_37 = R[4];
+R[1] = v__3519725_37;
+R[2] = v__3519727_37;
+R[3] = v__3519726_37;
+R[4] = v__3519724_37;
 saveCont(co, clofun117, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3519332_37= co->res;
-Obj v_to = R[1];
+Obj v__3521531_37= co->res;
+Obj v__3519724_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3519331_37= co->res;
-Obj v_to = R[1];
-R[1] = v_to;
+Obj v__3521530_37= co->res;
+Obj v__3519724_37 = R[1];
+R[1] = v__3519724_37;
 saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3519330_37= co->res;
-Obj v_label = R[1];
-Obj v_to = R[2];
-R[1] = v_to;
+Obj v__3521529_37= co->res;
+Obj v__3519726_37 = R[1];
+Obj v__3519724_37 = R[2];
+R[1] = v__3519724_37;
 saveCont(co, clofun117, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_to, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519724_37, v__3519726_37);
 return;
 }
 case 4:
 {
-Obj v__3519329_37= co->res;
-Obj v_label = R[1];
-Obj v_to = R[2];
-R[1] = v_label;
-R[2] = v_to;
+Obj v__3521528_37= co->res;
+Obj v__3519726_37 = R[1];
+Obj v__3519724_37 = R[2];
+R[1] = v__3519726_37;
+R[2] = v__3519724_37;
 saveCont(co, clofun117, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v__3519328_37= co->res;
-Obj v_label = R[1];
-Obj v_to = R[2];
-R[1] = v_label;
-R[2] = v_to;
+Obj v__3521527_37= co->res;
+Obj v__3519726_37 = R[1];
+Obj v__3519724_37 = R[2];
+R[1] = v__3519726_37;
+R[2] = v__3519724_37;
 saveCont(co, clofun117, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v__3519327_37= co->res;
-Obj v_label = R[1];
-Obj v_to = R[2];
-R[1] = v_label;
-R[2] = v_to;
+Obj v__3521526_37= co->res;
+Obj v__3519726_37 = R[1];
+Obj v__3519724_37 = R[2];
+R[1] = v__3519726_37;
+R[2] = v__3519724_37;
 saveCont(co, clofun117, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519327_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519724_37, v__3521526_37);
 return;
 }
 case 7:
 {
-Obj v__3519326_37= co->res;
-Obj v_lam = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_label;
-R[2] = v_to;
+Obj v__3521525_37= co->res;
+Obj v__3519727_37 = R[1];
+Obj v__3519726_37 = R[2];
+Obj v__3519724_37 = R[3];
+R[1] = v__3519726_37;
+R[2] = v__3519724_37;
 saveCont(co, clofun117, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519727_37);
 return;
 }
 case 8:
 {
-Obj v__3519325_37= co->res;
-Obj v_lam = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_lam;
-R[2] = v_label;
-R[3] = v_to;
+Obj v__3521524_37= co->res;
+Obj v__3519727_37 = R[1];
+Obj v__3519726_37 = R[2];
+Obj v__3519724_37 = R[3];
+R[1] = v__3519727_37;
+R[2] = v__3519726_37;
+R[3] = v__3519724_37;
 saveCont(co, clofun117, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "stackAlloc(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj v__3519324_37= co->res;
-Obj v_lam = R[1];
-Obj v_label = R[2];
-Obj v_to = R[3];
-R[1] = v_lam;
-R[2] = v_label;
-R[3] = v_to;
+Obj v__3521523_37= co->res;
+Obj v__3519727_37 = R[1];
+Obj v__3519726_37 = R[2];
+Obj v__3519724_37 = R[3];
+R[1] = v__3519727_37;
+R[2] = v__3519726_37;
+R[3] = v__3519724_37;
 saveCont(co, clofun117, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj v__3519315_37= co->res;
-Obj v_globals = R[1];
-Obj v_lam = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_lam;
-R[2] = v_label;
-R[3] = v_to;
+Obj v__3521514_37= co->res;
+Obj v__3519725_37 = R[1];
+Obj v__3519727_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519724_37 = R[4];
+R[1] = v__3519727_37;
+R[2] = v__3519726_37;
+R[3] = v__3519724_37;
 saveCont(co, clofun117, 9, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun116, 2, 1, v_to), MAKE_NUMBER(0), v_globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun116, 2, 1, v__3519724_37), MAKE_NUMBER(0), v__3519725_37);
 return;
 }
 case 11:
 {
-Obj v__3519314_37= co->res;
-Obj v_globals = R[1];
-Obj v_lam = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_lam;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521513_37= co->res;
+Obj v__3519725_37 = R[1];
+Obj v__3519727_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519724_37 = R[4];
+R[1] = v__3519725_37;
+R[2] = v__3519727_37;
+R[3] = v__3519726_37;
+R[4] = v__3519724_37;
 saveCont(co, clofun117, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3519313_37= co->res;
-Obj v_globals = R[1];
-Obj v_lam = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_lam;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521512_37= co->res;
+Obj v__3519725_37 = R[1];
+Obj v__3519727_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519724_37 = R[4];
+R[1] = v__3519725_37;
+R[2] = v__3519727_37;
+R[3] = v__3519726_37;
+R[4] = v__3519724_37;
 saveCont(co, clofun117, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_to, v__3519313_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519724_37, v__3521512_37);
 return;
 }
 case 13:
 {
-Obj v__3519312_37= co->res;
-Obj v_globals = R[1];
-Obj v_lam = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_lam;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521511_37= co->res;
+Obj v__3519725_37 = R[1];
+Obj v__3519727_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519724_37 = R[4];
+R[1] = v__3519725_37;
+R[2] = v__3519727_37;
+R[3] = v__3519726_37;
+R[4] = v__3519724_37;
 saveCont(co, clofun117, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519725_37);
 return;
 }
 case 14:
 {
-Obj v__3519311_37= co->res;
-Obj v_globals = R[1];
-Obj v_lam = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_lam;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521510_37= co->res;
+Obj v__3519725_37 = R[1];
+Obj v__3519727_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519724_37 = R[4];
+R[1] = v__3519725_37;
+R[2] = v__3519727_37;
+R[3] = v__3519726_37;
+R[4] = v__3519724_37;
 saveCont(co, clofun117, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 15:
 {
-Obj v__3519310_37= co->res;
-Obj v_globals = R[1];
-Obj v_lam = R[2];
-Obj v_label = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v_lam;
-R[3] = v_label;
-R[4] = v_to;
+Obj v__3521509_37= co->res;
+Obj v__3519725_37 = R[1];
+Obj v__3519727_37 = R[2];
+Obj v__3519726_37 = R[3];
+Obj v__3519724_37 = R[4];
+R[1] = v__3519725_37;
+R[2] = v__3519727_37;
+R[3] = v__3519726_37;
+R[4] = v__3519724_37;
 saveCont(co, clofun117, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1759,79 +1759,79 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_sym = R[2];
-R[1] = v_sym;
-R[2] = v_acc;
+Obj v__3519728_37 = R[1];
+Obj v__3519729_37 = R[2];
+R[1] = v__3519729_37;
+R[2] = v__3519728_37;
 saveCont(co, clofun116, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3519322_37= co->res;
-Obj v_acc = R[1];
-Obj v__3519323_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519323_37);
+Obj v__3521521_37= co->res;
+Obj v__3519728_37 = R[1];
+Obj v__3521522_37 = PRIM_ADD(v__3519728_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521522_37);
 return;
 }
 case 2:
 {
-Obj v__3519321_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521520_37= co->res;
+Obj v__3519728_37 = R[1];
+R[1] = v__3519728_37;
 saveCont(co, clofun116, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3519320_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521519_37= co->res;
+Obj v__3519728_37 = R[1];
+R[1] = v__3519728_37;
 saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3519320_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3521519_37);
 return;
 }
 case 4:
 {
-Obj v__3519319_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521518_37= co->res;
+Obj v__3519728_37 = R[1];
+R[1] = v__3519728_37;
 saveCont(co, clofun116, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3519319_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3521518_37);
 return;
 }
 case 5:
 {
-Obj v__3519318_37= co->res;
-Obj v_sym = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521517_37= co->res;
+Obj v__3519729_37 = R[1];
+Obj v__3519728_37 = R[2];
+R[1] = v__3519728_37;
 saveCont(co, clofun116, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v_sym);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519729_37);
 return;
 }
 case 6:
 {
-Obj v__3519317_37= co->res;
-Obj v_sym = R[1];
-Obj v_acc = R[2];
-R[1] = v_sym;
-R[2] = v_acc;
+Obj v__3521516_37= co->res;
+Obj v__3519729_37 = R[1];
+Obj v__3519728_37 = R[2];
+R[1] = v__3519729_37;
+R[2] = v__3519728_37;
 saveCont(co, clofun116, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3519316_37= co->res;
-Obj v_sym = R[1];
-Obj v_acc = R[2];
-R[1] = v_sym;
-R[2] = v_acc;
+Obj v__3521515_37= co->res;
+Obj v__3519729_37 = R[1];
+Obj v__3519728_37 = R[2];
+R[1] = v__3519729_37;
+R[2] = v__3519728_37;
 saveCont(co, clofun116, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v__3519728_37);
 return;
 }
 }
@@ -1841,221 +1841,221 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_to = R[1];
-Obj v_group = R[2];
-Obj v_globals = R[3];
-Obj v__3519288_37 = PRIM_CAR(v_group);
-Obj v__3517827_37 = v__3519288_37;
-R[1] = v_globals;
-R[2] = v__3517827_37;
-R[3] = v_to;
+Obj v__3519715_37 = R[1];
+Obj v__3519716_37 = R[2];
+Obj v__3519717_37 = R[3];
+Obj v__3521487_37 = PRIM_CAR(v__3519716_37);
+Obj v__3520026_37 = v__3521487_37;
+R[1] = v__3519717_37;
+R[2] = v__3520026_37;
+R[3] = v__3519715_37;
 saveCont(co, clofun115, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_group);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519716_37);
 return;
 }
 case 1:
 {
-Obj v__3519308_37= co->res;
-Obj v_to = R[1];
+Obj v__3521507_37= co->res;
+Obj v__3519715_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3519307_37= co->res;
-Obj v_to = R[1];
-R[1] = v_to;
+Obj v__3521506_37= co->res;
+Obj v__3519715_37 = R[1];
+R[1] = v__3519715_37;
 saveCont(co, clofun115, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519306_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517827_37 = R[2];
-Obj v__3517828_37 = R[3];
-Obj v_to = R[4];
-R[1] = v_to;
+Obj v__3521505_37= co->res;
+Obj v__3519717_37 = R[1];
+Obj v__3520026_37 = R[2];
+Obj v__3520027_37 = R[3];
+Obj v__3519715_37 = R[4];
+R[1] = v__3519715_37;
 saveCont(co, clofun115, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 4, v_globals, v__3517827_37, v__3517828_37, v_to), MAKE_NUMBER(1), v__3519306_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 4, v__3519717_37, v__3520026_37, v__3520027_37, v__3519715_37), MAKE_NUMBER(1), v__3521505_37);
 return;
 }
 case 4:
 {
-Obj v__3519298_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517827_37 = R[2];
-Obj v__3517828_37 = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v__3517827_37;
-R[3] = v__3517828_37;
-R[4] = v_to;
+Obj v__3521497_37= co->res;
+Obj v__3519717_37 = R[1];
+Obj v__3520026_37 = R[2];
+Obj v__3520027_37 = R[3];
+Obj v__3519715_37 = R[4];
+R[1] = v__3519717_37;
+R[2] = v__3520026_37;
+R[3] = v__3520027_37;
+R[4] = v__3519715_37;
 saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3517828_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3520027_37);
 return;
 }
 case 5:
 {
-Obj v__3519297_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517827_37 = R[2];
-Obj v__3517828_37 = R[3];
-Obj v_to = R[4];
-R[1] = v_globals;
-R[2] = v__3517827_37;
-R[3] = v__3517828_37;
-R[4] = v_to;
+Obj v__3521496_37= co->res;
+Obj v__3519717_37 = R[1];
+Obj v__3520026_37 = R[2];
+Obj v__3520027_37 = R[3];
+Obj v__3519715_37 = R[4];
+R[1] = v__3519717_37;
+R[2] = v__3520026_37;
+R[3] = v__3520027_37;
+R[4] = v__3519715_37;
 saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3519296_37= co->res;
-Obj v__3517829_37 = R[1];
-Obj v__3517830_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517827_37 = R[4];
-Obj v__3517828_37 = R[5];
-Obj v_to = R[6];
-R[1] = v_globals;
-R[2] = v__3517827_37;
-R[3] = v__3517828_37;
-R[4] = v_to;
+Obj v__3521495_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3520029_37 = R[2];
+Obj v__3519717_37 = R[3];
+Obj v__3520026_37 = R[4];
+Obj v__3520027_37 = R[5];
+Obj v__3519715_37 = R[6];
+R[1] = v__3519717_37;
+R[2] = v__3520026_37;
+R[3] = v__3520027_37;
+R[4] = v__3519715_37;
 saveCont(co, clofun115, 5, R);
-Obj __args[5] = {v_globals, v__3517827_37, v__3517829_37, v_to, v__3517830_37};
+Obj __args[5] = {v__3519717_37, v__3520026_37, v__3520028_37, v__3519715_37, v__3520029_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519295_37= co->res;
-Obj v__3517829_37 = R[1];
-Obj v__3517830_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517827_37 = R[4];
-Obj v__3517828_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517829_37;
-R[2] = v__3517830_37;
-R[3] = v_globals;
-R[4] = v__3517827_37;
-R[5] = v__3517828_37;
-R[6] = v_to;
+Obj v__3521494_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3520029_37 = R[2];
+Obj v__3519717_37 = R[3];
+Obj v__3520026_37 = R[4];
+Obj v__3520027_37 = R[5];
+Obj v__3519715_37 = R[6];
+R[1] = v__3520028_37;
+R[2] = v__3520029_37;
+R[3] = v__3519717_37;
+R[4] = v__3520026_37;
+R[5] = v__3520027_37;
+R[6] = v__3519715_37;
 saveCont(co, clofun115, 6, R);
-Obj __args[5] = {v_globals, v__3517827_37, Nil, v_to, v__3517829_37};
+Obj __args[5] = {v__3519717_37, v__3520026_37, Nil, v__3519715_37, v__3520028_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3519294_37= co->res;
-Obj v__3517829_37 = R[1];
-Obj v__3517830_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517827_37 = R[4];
-Obj v__3517828_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517829_37;
-R[2] = v__3517830_37;
-R[3] = v_globals;
-R[4] = v__3517827_37;
-R[5] = v__3517828_37;
-R[6] = v_to;
+Obj v__3521493_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3520029_37 = R[2];
+Obj v__3519717_37 = R[3];
+Obj v__3520026_37 = R[4];
+Obj v__3520027_37 = R[5];
+Obj v__3519715_37 = R[6];
+R[1] = v__3520028_37;
+R[2] = v__3520029_37;
+R[3] = v__3519717_37;
+R[4] = v__3520026_37;
+R[5] = v__3520027_37;
+R[6] = v__3519715_37;
 saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3519293_37= co->res;
-Obj v__3517829_37 = R[1];
-Obj v__3517830_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517827_37 = R[4];
-Obj v__3517828_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517829_37;
-R[2] = v__3517830_37;
-R[3] = v_globals;
-R[4] = v__3517827_37;
-R[5] = v__3517828_37;
-R[6] = v_to;
+Obj v__3521492_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3520029_37 = R[2];
+Obj v__3519717_37 = R[3];
+Obj v__3520026_37 = R[4];
+Obj v__3520027_37 = R[5];
+Obj v__3519715_37 = R[6];
+R[1] = v__3520028_37;
+R[2] = v__3520029_37;
+R[3] = v__3519717_37;
+R[4] = v__3520026_37;
+R[5] = v__3520027_37;
+R[6] = v__3519715_37;
 saveCont(co, clofun115, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3519292_37= co->res;
-Obj v__3517829_37 = R[1];
-Obj v__3517830_37 = R[2];
-Obj v_globals = R[3];
-Obj v__3517827_37 = R[4];
-Obj v__3517828_37 = R[5];
-Obj v_to = R[6];
-R[1] = v__3517829_37;
-R[2] = v__3517830_37;
-R[3] = v_globals;
-R[4] = v__3517827_37;
-R[5] = v__3517828_37;
-R[6] = v_to;
+Obj v__3521491_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3520029_37 = R[2];
+Obj v__3519717_37 = R[3];
+Obj v__3520026_37 = R[4];
+Obj v__3520027_37 = R[5];
+Obj v__3519715_37 = R[6];
+R[1] = v__3520028_37;
+R[2] = v__3520029_37;
+R[3] = v__3519717_37;
+R[4] = v__3520026_37;
+R[5] = v__3520027_37;
+R[6] = v__3519715_37;
 saveCont(co, clofun115, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_to, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3519291_37= co->res;
-Obj v__3517829_37 = R[1];
-Obj v_globals = R[2];
-Obj v__3517827_37 = R[3];
-Obj v__3517828_37 = R[4];
-Obj v_to = R[5];
-Obj v__3517830_37 = v__3519291_37;
-R[1] = v__3517829_37;
-R[2] = v__3517830_37;
-R[3] = v_globals;
-R[4] = v__3517827_37;
-R[5] = v__3517828_37;
-R[6] = v_to;
+Obj v__3521490_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3519717_37 = R[2];
+Obj v__3520026_37 = R[3];
+Obj v__3520027_37 = R[4];
+Obj v__3519715_37 = R[5];
+Obj v__3520029_37 = v__3521490_37;
+R[1] = v__3520028_37;
+R[2] = v__3520029_37;
+R[3] = v__3519717_37;
+R[4] = v__3520026_37;
+R[5] = v__3520027_37;
+R[6] = v__3519715_37;
 saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v_to, v__3517827_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v__3519715_37, v__3520026_37);
 return;
 }
 case 12:
 {
-Obj v__3519290_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517827_37 = R[2];
-Obj v__3517828_37 = R[3];
-Obj v_to = R[4];
-Obj v__3517829_37 = v__3519290_37;
-R[1] = v__3517829_37;
-R[2] = v_globals;
-R[3] = v__3517827_37;
-R[4] = v__3517828_37;
-R[5] = v_to;
+Obj v__3521489_37= co->res;
+Obj v__3519717_37 = R[1];
+Obj v__3520026_37 = R[2];
+Obj v__3520027_37 = R[3];
+Obj v__3519715_37 = R[4];
+Obj v__3520028_37 = v__3521489_37;
+R[1] = v__3520028_37;
+R[2] = v__3519717_37;
+R[3] = v__3520026_37;
+R[4] = v__3520027_37;
+R[5] = v__3519715_37;
 saveCont(co, clofun115, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517828_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3520027_37);
 return;
 }
 case 13:
 {
-Obj v__3519289_37= co->res;
-Obj v_globals = R[1];
-Obj v__3517827_37 = R[2];
-Obj v_to = R[3];
-Obj v__3517828_37 = v__3519289_37;
-R[1] = v_globals;
-R[2] = v__3517827_37;
-R[3] = v__3517828_37;
-R[4] = v_to;
+Obj v__3521488_37= co->res;
+Obj v__3519717_37 = R[1];
+Obj v__3520026_37 = R[2];
+Obj v__3519715_37 = R[3];
+Obj v__3520027_37 = v__3521488_37;
+R[1] = v__3519717_37;
+R[2] = v__3520026_37;
+R[3] = v__3520027_37;
+R[4] = v__3519715_37;
 saveCont(co, clofun115, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517828_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3520027_37);
 return;
 }
 }
@@ -2065,73 +2065,73 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_cont = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3519722_37 = R[1];
+Obj v__3519723_37 = R[2];
+R[1] = v__3519723_37;
+R[2] = v__3519722_37;
 saveCont(co, clofun114, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3519304_37= co->res;
-Obj v_acc = R[1];
-Obj v__3519305_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3519305_37);
+Obj v__3521503_37= co->res;
+Obj v__3519722_37 = R[1];
+Obj v__3521504_37 = PRIM_ADD(v__3519722_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521504_37);
 return;
 }
 case 2:
 {
-Obj v__3519303_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521502_37= co->res;
+Obj v__3519722_37 = R[1];
+R[1] = v__3519722_37;
 saveCont(co, clofun114, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3519302_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521501_37= co->res;
+Obj v__3519723_37 = R[1];
+Obj v__3519722_37 = R[2];
+R[1] = v__3519722_37;
 saveCont(co, clofun114, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3519302_37, closureRef(R[0], 3), v_cont};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521501_37, closureRef(R[0], 3), v__3519723_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3519301_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3521500_37= co->res;
+Obj v__3519723_37 = R[1];
+Obj v__3519722_37 = R[2];
+R[1] = v__3519723_37;
+R[2] = v__3519722_37;
 saveCont(co, clofun114, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3519300_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3521499_37= co->res;
+Obj v__3519723_37 = R[1];
+Obj v__3519722_37 = R[2];
+R[1] = v__3519723_37;
+R[2] = v__3519722_37;
 saveCont(co, clofun114, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3519299_37= co->res;
-Obj v_cont = R[1];
-Obj v_acc = R[2];
-R[1] = v_cont;
-R[2] = v_acc;
+Obj v__3521498_37= co->res;
+Obj v__3519723_37 = R[1];
+Obj v__3519722_37 = R[2];
+R[1] = v__3519723_37;
+R[2] = v__3519722_37;
 saveCont(co, clofun114, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519722_37);
 return;
 }
 }
@@ -2141,23 +2141,23 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517572_37 = R[1];
-Obj v__3517573_37 = R[2];
-Obj v__3519282_37 = PRIM_EQ(Nil, v__3517573_37);
-if (True == v__3519282_37) {
+Obj v__3519709_37 = R[1];
+Obj v__3519710_37 = R[2];
+Obj v__3521481_37 = PRIM_EQ(Nil, v__3519710_37);
+if (True == v__3521481_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519283_37 = PRIM_ISCONS(v__3517573_37);
-if (True == v__3519283_37) {
-Obj v__3519284_37 = PRIM_CAR(v__3517573_37);
-Obj v__3517825_37 = v__3519284_37;
-Obj v__3519285_37 = PRIM_CDR(v__3517573_37);
-Obj v__3517826_37 = v__3519285_37;
-R[1] = v__3517572_37;
-R[2] = v__3517826_37;
+Obj v__3521482_37 = PRIM_ISCONS(v__3519710_37);
+if (True == v__3521482_37) {
+Obj v__3521483_37 = PRIM_CAR(v__3519710_37);
+Obj v__3520024_37 = v__3521483_37;
+Obj v__3521484_37 = PRIM_CDR(v__3519710_37);
+Obj v__3520025_37 = v__3521484_37;
+R[1] = v__3519709_37;
+R[2] = v__3520025_37;
 saveCont(co, clofun113, 1, R);
-coraCall1(co, v__3517572_37, v__3517825_37);
+coraCall1(co, v__3519709_37, v__3520024_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2168,11 +2168,11 @@ return;
 }
 case 1:
 {
-Obj v__3519286_37= co->res;
-Obj v__3517572_37 = R[1];
-Obj v__3517826_37 = R[2];
+Obj v__3521485_37= co->res;
+Obj v__3519709_37 = R[1];
+Obj v__3520025_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3517572_37, v__3517826_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3519709_37, v__3520025_37);
 return;
 }
 }
@@ -2182,47 +2182,47 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_exp = R[2];
-R[1] = v_exp;
+Obj v__3519707_37 = R[1];
+Obj v__3519708_37 = R[2];
+R[1] = v__3519708_37;
 saveCont(co, clofun112, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519707_37);
 return;
 }
 case 1:
 {
-Obj v__3519280_37= co->res;
+Obj v__3521479_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3519280_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3521479_37);
 return;
 }
 case 2:
 {
-Obj v__3519279_37= co->res;
+Obj v__3521478_37= co->res;
 saveCont(co, clofun112, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3519279_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3521478_37);
 return;
 }
 case 3:
 {
-Obj v__3519278_37= co->res;
+Obj v__3521477_37= co->res;
 saveCont(co, clofun112, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3519278_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521477_37);
 return;
 }
 case 4:
 {
-Obj v__3519277_37= co->res;
+Obj v__3521476_37= co->res;
 saveCont(co, clofun112, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3519277_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521476_37);
 return;
 }
 case 5:
 {
-Obj v__3519276_37= co->res;
-Obj v_exp = R[1];
+Obj v__3521475_37= co->res;
+Obj v__3519708_37 = R[1];
 saveCont(co, clofun112, 4, R);
-coraCall1(co, v__3519276_37, v_exp);
+coraCall1(co, v__3521475_37, v__3519708_37);
 return;
 }
 }
@@ -2232,29 +2232,29 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3519704_37 = R[1];
+R[1] = v__3519704_37;
 saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519704_37);
 return;
 }
 case 1:
 {
-Obj v__3519274_37= co->res;
-Obj v__3517823_37 = R[1];
-Obj v__3517824_37 = v__3519274_37;
+Obj v__3521473_37= co->res;
+Obj v__3520022_37 = R[1];
+Obj v__3520023_37 = v__3521473_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3517823_37, v__3517824_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3520022_37, v__3520023_37);
 return;
 }
 case 2:
 {
-Obj v__3519273_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517823_37 = v__3519273_37;
-R[1] = v__3517823_37;
+Obj v__3521472_37= co->res;
+Obj v__3519704_37 = R[1];
+Obj v__3520022_37 = v__3521472_37;
+R[1] = v__3520022_37;
 saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v_exp);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v__3519704_37);
 return;
 }
 }
@@ -2264,23 +2264,23 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517568_37 = R[1];
-Obj v__3517569_37 = R[2];
-Obj v__3519266_37 = PRIM_EQ(Nil, v__3517569_37);
-if (True == v__3519266_37) {
-coraReturn(co, v__3517568_37);
+Obj v__3519698_37 = R[1];
+Obj v__3519699_37 = R[2];
+Obj v__3521465_37 = PRIM_EQ(Nil, v__3519699_37);
+if (True == v__3521465_37) {
+coraReturn(co, v__3519698_37);
 return;
 } else {
-Obj v__3519267_37 = PRIM_ISCONS(v__3517569_37);
-if (True == v__3519267_37) {
-Obj v__3519268_37 = PRIM_CAR(v__3517569_37);
-Obj v__3517821_37 = v__3519268_37;
-Obj v__3519269_37 = PRIM_CDR(v__3517569_37);
-Obj v__3517822_37 = v__3519269_37;
-Obj v__3519270_37 = makeCons(co->gc, v__3517568_37, Nil);
-Obj v__3519271_37 = makeCons(co->gc, v__3517821_37, v__3519270_37);
+Obj v__3521466_37 = PRIM_ISCONS(v__3519699_37);
+if (True == v__3521466_37) {
+Obj v__3521467_37 = PRIM_CAR(v__3519699_37);
+Obj v__3520020_37 = v__3521467_37;
+Obj v__3521468_37 = PRIM_CDR(v__3519699_37);
+Obj v__3520021_37 = v__3521468_37;
+Obj v__3521469_37 = makeCons(co->gc, v__3519698_37, Nil);
+Obj v__3521470_37 = makeCons(co->gc, v__3520020_37, v__3521469_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3519271_37, v__3517822_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3521470_37, v__3520021_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2296,70 +2296,70 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
-R[1] = v_exp;
+Obj v__3519694_37 = R[1];
+R[1] = v__3519694_37;
 saveCont(co, clofun109, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3519264_37= co->res;
-Obj v__3517818_37 = R[1];
+Obj v__3521463_37= co->res;
+Obj v__3520017_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517818_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3520017_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3519263_37= co->res;
-Obj v__3517818_37 = R[1];
-Obj v__3517820_37 = v__3519263_37;
-R[1] = v__3517818_37;
+Obj v__3521462_37= co->res;
+Obj v__3520017_37 = R[1];
+Obj v__3520019_37 = v__3521462_37;
+R[1] = v__3520017_37;
 saveCont(co, clofun109, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517818_37, v__3517820_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3520017_37, v__3520019_37);
 return;
 }
 case 3:
 {
-Obj v__3519262_37= co->res;
-Obj v__3517818_37 = R[1];
-Obj v__3517819_37 = v__3519262_37;
-R[1] = v__3517818_37;
+Obj v__3521461_37= co->res;
+Obj v__3520017_37 = R[1];
+Obj v__3520018_37 = v__3521461_37;
+R[1] = v__3520017_37;
 saveCont(co, clofun109, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3517819_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3520018_37);
 return;
 }
 case 4:
 {
-Obj v__3519261_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517818_37 = R[2];
-R[1] = v__3517818_37;
+Obj v__3521460_37= co->res;
+Obj v__3519694_37 = R[1];
+Obj v__3520017_37 = R[2];
+R[1] = v__3520017_37;
 saveCont(co, clofun109, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517818_37, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3520017_37, v__3519694_37);
 return;
 }
 case 5:
 {
-Obj v__3519260_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517818_37 = R[2];
-R[1] = v_exp;
-R[2] = v__3517818_37;
+Obj v__3521459_37= co->res;
+Obj v__3519694_37 = R[1];
+Obj v__3520017_37 = R[2];
+R[1] = v__3519694_37;
+R[2] = v__3520017_37;
 saveCont(co, clofun109, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517818_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520017_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3519259_37= co->res;
-Obj v_exp = R[1];
-Obj v__3517818_37 = v__3519259_37;
-R[1] = v_exp;
-R[2] = v__3517818_37;
+Obj v__3521458_37= co->res;
+Obj v__3519694_37 = R[1];
+Obj v__3520017_37 = v__3521458_37;
+R[1] = v__3519694_37;
+R[2] = v__3520017_37;
 saveCont(co, clofun109, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3517818_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520017_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2369,9 +2369,9 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3519693_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v__3519693_37);
 return;
 }
 }
@@ -2381,9 +2381,9 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3519692_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v_exp, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519692_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 }
 }
@@ -2393,9 +2393,9 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_exp = R[1];
+Obj v__3519691_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, v_exp);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, v__3519691_37);
 return;
 }
 }
@@ -2405,10 +2405,10 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_exp = R[2];
+Obj v__3519689_37 = R[1];
+Obj v__3519690_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, v_globals, v_exp);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, v__3519689_37, v__3519690_37);
 return;
 }
 }
@@ -2418,39 +2418,39 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_w = R[1];
-Obj v_label = R[2];
-R[1] = v_label;
-R[2] = v_w;
+Obj v__3519687_37 = R[1];
+Obj v__3519688_37 = R[2];
+R[1] = v__3519688_37;
+R[2] = v__3519687_37;
 saveCont(co, clofun104, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519687_37, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3519253_37= co->res;
-Obj v_w = R[1];
+Obj v__3521452_37= co->res;
+Obj v__3519687_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519687_37, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519252_37= co->res;
-Obj v_w = R[1];
-R[1] = v_w;
+Obj v__3521451_37= co->res;
+Obj v__3519687_37 = R[1];
+R[1] = v__3519687_37;
 saveCont(co, clofun104, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519687_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3519251_37= co->res;
-Obj v_label = R[1];
-Obj v_w = R[2];
-R[1] = v_w;
+Obj v__3521450_37= co->res;
+Obj v__3519688_37 = R[1];
+Obj v__3519687_37 = R[2];
+R[1] = v__3519687_37;
 saveCont(co, clofun104, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v_w, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519687_37, v__3519688_37);
 return;
 }
 }
@@ -2460,21 +2460,21 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_w = R[1];
-Obj v_label = R[2];
-R[1] = v_w;
-R[2] = v_label;
+Obj v__3519685_37 = R[1];
+Obj v__3519686_37 = R[2];
+R[1] = v__3519685_37;
+R[2] = v__3519686_37;
 saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v_w, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519685_37, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3519249_37= co->res;
-Obj v_w = R[1];
-Obj v_label = R[2];
+Obj v__3521448_37= co->res;
+Obj v__3519685_37 = R[1];
+Obj v__3519686_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v_w, v_label);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519685_37, v__3519686_37);
 return;
 }
 }
@@ -2484,136 +2484,136 @@ static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517562_37 = R[1];
-Obj v__3517563_37 = R[2];
-Obj v__3517564_37 = R[3];
-Obj v__3517565_37 = R[4];
-Obj v__3517566_37 = R[5];
-Obj v__3517814_37 = makeNative(co->gc, 1, clofun101, 0, 0);
-Obj v__3519227_37 = PRIM_ISCONS(v__3517566_37);
-if (True == v__3519227_37) {
-Obj v__3519228_37 = PRIM_CAR(v__3517566_37);
-Obj v__3519229_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3519228_37);
-if (True == v__3519229_37) {
-Obj v__3519230_37 = PRIM_CDR(v__3517566_37);
-Obj v__3519231_37 = PRIM_ISCONS(v__3519230_37);
-if (True == v__3519231_37) {
-Obj v__3519232_37 = PRIM_CDR(v__3517566_37);
-Obj v__3519233_37 = PRIM_CAR(v__3519232_37);
-Obj v__3517815_37 = v__3519233_37;
-Obj v__3519234_37 = PRIM_CDR(v__3517566_37);
-Obj v__3519235_37 = PRIM_CDR(v__3519234_37);
-Obj v__3519236_37 = PRIM_ISCONS(v__3519235_37);
-if (True == v__3519236_37) {
-Obj v__3519237_37 = PRIM_CDR(v__3517566_37);
-Obj v__3519238_37 = PRIM_CDR(v__3519237_37);
-Obj v__3519239_37 = PRIM_CAR(v__3519238_37);
-Obj v__3517816_37 = v__3519239_37;
-Obj v__3519240_37 = PRIM_CDR(v__3517566_37);
-Obj v__3519241_37 = PRIM_CDR(v__3519240_37);
-Obj v__3519242_37 = PRIM_CDR(v__3519241_37);
-Obj v__3517817_37 = v__3519242_37;
-R[1] = v__3517815_37;
-R[2] = v__3517817_37;
-R[3] = v__3517562_37;
-R[4] = v__3517563_37;
-R[5] = v__3517564_37;
-R[6] = v__3517565_37;
-R[7] = v__3517816_37;
+Obj v__3519676_37 = R[1];
+Obj v__3519677_37 = R[2];
+Obj v__3519678_37 = R[3];
+Obj v__3519679_37 = R[4];
+Obj v__3519680_37 = R[5];
+Obj v__3520013_37 = makeNative(co->gc, 1, clofun101, 0, 0);
+Obj v__3521426_37 = PRIM_ISCONS(v__3519680_37);
+if (True == v__3521426_37) {
+Obj v__3521427_37 = PRIM_CAR(v__3519680_37);
+Obj v__3521428_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3521427_37);
+if (True == v__3521428_37) {
+Obj v__3521429_37 = PRIM_CDR(v__3519680_37);
+Obj v__3521430_37 = PRIM_ISCONS(v__3521429_37);
+if (True == v__3521430_37) {
+Obj v__3521431_37 = PRIM_CDR(v__3519680_37);
+Obj v__3521432_37 = PRIM_CAR(v__3521431_37);
+Obj v__3520014_37 = v__3521432_37;
+Obj v__3521433_37 = PRIM_CDR(v__3519680_37);
+Obj v__3521434_37 = PRIM_CDR(v__3521433_37);
+Obj v__3521435_37 = PRIM_ISCONS(v__3521434_37);
+if (True == v__3521435_37) {
+Obj v__3521436_37 = PRIM_CDR(v__3519680_37);
+Obj v__3521437_37 = PRIM_CDR(v__3521436_37);
+Obj v__3521438_37 = PRIM_CAR(v__3521437_37);
+Obj v__3520015_37 = v__3521438_37;
+Obj v__3521439_37 = PRIM_CDR(v__3519680_37);
+Obj v__3521440_37 = PRIM_CDR(v__3521439_37);
+Obj v__3521441_37 = PRIM_CDR(v__3521440_37);
+Obj v__3520016_37 = v__3521441_37;
+R[1] = v__3520014_37;
+R[2] = v__3520016_37;
+R[3] = v__3519676_37;
+R[4] = v__3519677_37;
+R[5] = v__3519678_37;
+R[6] = v__3519679_37;
+R[7] = v__3520015_37;
 saveCont(co, clofun102, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517565_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519679_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517814_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517814_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517814_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517814_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519247_37= co->res;
-Obj v__3517562_37 = R[1];
-Obj v__3517563_37 = R[2];
-Obj v__3517564_37 = R[3];
-Obj v__3517565_37 = R[4];
-Obj v__3517816_37 = R[5];
+Obj v__3521446_37= co->res;
+Obj v__3519676_37 = R[1];
+Obj v__3519677_37 = R[2];
+Obj v__3519678_37 = R[3];
+Obj v__3519679_37 = R[4];
+Obj v__3520015_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3517562_37, v__3517563_37, v__3517564_37, v__3517565_37, v__3517816_37};
+Obj __args[5] = {v__3519676_37, v__3519677_37, v__3519678_37, v__3519679_37, v__3520015_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3519246_37= co->res;
-Obj v__3517817_37 = R[1];
-Obj v__3517562_37 = R[2];
-Obj v__3517563_37 = R[3];
-Obj v__3517564_37 = R[4];
-Obj v__3517565_37 = R[5];
-Obj v__3517816_37 = R[6];
-R[1] = v__3517562_37;
-R[2] = v__3517563_37;
-R[3] = v__3517564_37;
-R[4] = v__3517565_37;
-R[5] = v__3517816_37;
+Obj v__3521445_37= co->res;
+Obj v__3520016_37 = R[1];
+Obj v__3519676_37 = R[2];
+Obj v__3519677_37 = R[3];
+Obj v__3519678_37 = R[4];
+Obj v__3519679_37 = R[5];
+Obj v__3520015_37 = R[6];
+R[1] = v__3519676_37;
+R[2] = v__3519677_37;
+R[3] = v__3519678_37;
+R[4] = v__3519679_37;
+R[5] = v__3520015_37;
 saveCont(co, clofun102, 1, R);
-Obj __args[5] = {v__3517562_37, v__3517563_37, v__3517564_37, v__3517565_37, v__3517817_37};
+Obj __args[5] = {v__3519676_37, v__3519677_37, v__3519678_37, v__3519679_37, v__3520016_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519245_37= co->res;
-Obj v__3517817_37 = R[1];
-Obj v__3517562_37 = R[2];
-Obj v__3517563_37 = R[3];
-Obj v__3517564_37 = R[4];
-Obj v__3517565_37 = R[5];
-Obj v__3517816_37 = R[6];
-R[1] = v__3517817_37;
-R[2] = v__3517562_37;
-R[3] = v__3517563_37;
-R[4] = v__3517564_37;
-R[5] = v__3517565_37;
-R[6] = v__3517816_37;
+Obj v__3521444_37= co->res;
+Obj v__3520016_37 = R[1];
+Obj v__3519676_37 = R[2];
+Obj v__3519677_37 = R[3];
+Obj v__3519678_37 = R[4];
+Obj v__3519679_37 = R[5];
+Obj v__3520015_37 = R[6];
+R[1] = v__3520016_37;
+R[2] = v__3519676_37;
+R[3] = v__3519677_37;
+R[4] = v__3519678_37;
+R[5] = v__3519679_37;
+R[6] = v__3520015_37;
 saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3517565_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519679_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3519243_37= co->res;
-Obj v__3517815_37 = R[1];
-Obj v__3517817_37 = R[2];
-Obj v__3517562_37 = R[3];
-Obj v__3517563_37 = R[4];
-Obj v__3517564_37 = R[5];
-Obj v__3517565_37 = R[6];
-Obj v__3517816_37 = R[7];
-Obj v__3519244_37 = PRIM_CAR(v__3517815_37);
-R[1] = v__3517817_37;
-R[2] = v__3517562_37;
-R[3] = v__3517563_37;
-R[4] = v__3517564_37;
-R[5] = v__3517565_37;
-R[6] = v__3517816_37;
+Obj v__3521442_37= co->res;
+Obj v__3520014_37 = R[1];
+Obj v__3520016_37 = R[2];
+Obj v__3519676_37 = R[3];
+Obj v__3519677_37 = R[4];
+Obj v__3519678_37 = R[5];
+Obj v__3519679_37 = R[6];
+Obj v__3520015_37 = R[7];
+Obj v__3521443_37 = PRIM_CAR(v__3520014_37);
+R[1] = v__3520016_37;
+R[2] = v__3519676_37;
+R[3] = v__3519677_37;
+R[4] = v__3519678_37;
+R[5] = v__3519679_37;
+R[6] = v__3520015_37;
 saveCont(co, clofun102, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3517565_37, v__3519244_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519679_37, v__3521443_37);
 return;
 }
 }
@@ -2634,25 +2634,25 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env = R[3];
-Obj v_w = R[4];
-Obj v_l = R[5];
-Obj v__3519213_37 = primGenSym(co);
-Obj v__3517811_37 = v__3519213_37;
-Obj v__3519224_37 = primSet(co, v__3517811_37, makeNative(co->gc, 2, clofun99, 1, 5, v_globals, v_self, v_env, v_w, v__3517811_37));
-R[1] = v_l;
+Obj v__3519665_37 = R[1];
+Obj v__3519666_37 = R[2];
+Obj v__3519667_37 = R[3];
+Obj v__3519668_37 = R[4];
+Obj v__3519669_37 = R[5];
+Obj v__3521412_37 = primGenSym(co);
+Obj v__3520010_37 = v__3521412_37;
+Obj v__3521423_37 = primSet(co, v__3520010_37, makeNative(co->gc, 2, clofun99, 1, 5, v__3519665_37, v__3519666_37, v__3519667_37, v__3519668_37, v__3520010_37));
+R[1] = v__3519669_37;
 saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517811_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520010_37);
 return;
 }
 case 1:
 {
-Obj v__3519225_37= co->res;
-Obj v_l = R[1];
+Obj v__3521424_37= co->res;
+Obj v__3519669_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519225_37, v_l);
+coraCall1(co, v__3521424_37, v__3519669_37);
 return;
 }
 }
@@ -2662,21 +2662,21 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3519214_37 = PRIM_EQ(Nil, v_x);
-if (True == v__3519214_37) {
+Obj v__3519671_37 = R[1];
+Obj v__3521413_37 = PRIM_EQ(Nil, v__3519671_37);
+if (True == v__3521413_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519215_37 = PRIM_ISCONS(v_x);
-if (True == v__3519215_37) {
-Obj v__3519216_37 = PRIM_CAR(v_x);
-Obj v__3517812_37 = v__3519216_37;
-Obj v__3519217_37 = PRIM_CDR(v_x);
-Obj v__3517813_37 = v__3519217_37;
-R[1] = v__3517813_37;
+Obj v__3521414_37 = PRIM_ISCONS(v__3519671_37);
+if (True == v__3521414_37) {
+Obj v__3521415_37 = PRIM_CAR(v__3519671_37);
+Obj v__3520011_37 = v__3521415_37;
+Obj v__3521416_37 = PRIM_CDR(v__3519671_37);
+Obj v__3520012_37 = v__3521416_37;
+R[1] = v__3520012_37;
 saveCont(co, clofun99, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3517812_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3520011_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2688,42 +2688,42 @@ return;
 }
 case 1:
 {
-Obj v__3519222_37= co->res;
-Obj v__3517813_37 = R[1];
+Obj v__3521421_37= co->res;
+Obj v__3520012_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519222_37, v__3517813_37);
+coraCall1(co, v__3521421_37, v__3520012_37);
 return;
 }
 case 2:
 {
-Obj v__3519221_37= co->res;
-Obj v__3517813_37 = R[1];
-R[1] = v__3517813_37;
+Obj v__3521420_37= co->res;
+Obj v__3520012_37 = R[1];
+R[1] = v__3520012_37;
 saveCont(co, clofun99, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519223_37= co->res;
-Obj v__3517813_37 = R[1];
+Obj v__3521422_37= co->res;
+Obj v__3520012_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3519223_37, v__3517813_37);
+coraCall1(co, v__3521422_37, v__3520012_37);
 return;
 }
 case 4:
 {
-Obj v__3519219_37= co->res;
-Obj v__3517813_37 = R[1];
-Obj v__3519220_37 = primNot(v__3519219_37);
-if (True == v__3519220_37) {
-R[1] = v__3517813_37;
+Obj v__3521418_37= co->res;
+Obj v__3520012_37 = R[1];
+Obj v__3521419_37 = primNot(v__3521418_37);
+if (True == v__3521419_37) {
+R[1] = v__3520012_37;
 saveCont(co, clofun99, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3517813_37;
+R[1] = v__3520012_37;
 saveCont(co, clofun99, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
@@ -2731,11 +2731,11 @@ return;
 }
 case 5:
 {
-Obj v__3519218_37= co->res;
-Obj v__3517813_37 = R[1];
-R[1] = v__3517813_37;
+Obj v__3521417_37= co->res;
+Obj v__3520012_37 = R[1];
+R[1] = v__3520012_37;
 saveCont(co, clofun99, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517813_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520012_37);
 return;
 }
 }
@@ -2745,27 +2745,27 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env1 = R[3];
-Obj v_w = R[4];
-Obj v_x1 = R[5];
-Obj v__3518926_37 = primGenSym(co);
-Obj v__3517774_37 = v__3518926_37;
-Obj v__3519210_37 = primSet(co, v__3517774_37, makeNative(co->gc, 3, clofun97, 2, 4, v_self, v__3517774_37, v_globals, v_w));
-R[1] = v_x1;
-R[2] = v_env1;
+Obj v__3519621_37 = R[1];
+Obj v__3519622_37 = R[2];
+Obj v__3519623_37 = R[3];
+Obj v__3519624_37 = R[4];
+Obj v__3519625_37 = R[5];
+Obj v__3521125_37 = primGenSym(co);
+Obj v__3519973_37 = v__3521125_37;
+Obj v__3521409_37 = primSet(co, v__3519973_37, makeNative(co->gc, 3, clofun97, 2, 4, v__3519622_37, v__3519973_37, v__3519621_37, v__3519624_37));
+R[1] = v__3519625_37;
+R[2] = v__3519623_37;
 saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3517774_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519973_37);
 return;
 }
 case 1:
 {
-Obj v__3519211_37= co->res;
-Obj v_x1 = R[1];
-Obj v_env1 = R[2];
+Obj v__3521410_37= co->res;
+Obj v__3519625_37 = R[1];
+Obj v__3519623_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519211_37, v_x1, v_env1);
+coraCall2(co, v__3521410_37, v__3519625_37, v__3519623_37);
 return;
 }
 }
@@ -2775,76 +2775,76 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x2 = R[1];
-Obj v_env = R[2];
-Obj v__3518927_37 = primIsSymbol(v_x2);
-if (True == v__3518927_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v_x2);
-return;
-} else {
-Obj v__3517775_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v_env, closureRef(R[0], 2), v_x2, closureRef(R[0], 3));
-Obj v__3519197_37 = PRIM_ISCONS(v_x2);
-if (True == v__3519197_37) {
-Obj v__3519198_37 = PRIM_CAR(v_x2);
-Obj v__3519199_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3519198_37);
-if (True == v__3519199_37) {
-Obj v__3519200_37 = PRIM_CDR(v_x2);
-Obj v__3519201_37 = PRIM_ISCONS(v__3519200_37);
-if (True == v__3519201_37) {
-Obj v__3519202_37 = PRIM_CDR(v_x2);
-Obj v__3519203_37 = PRIM_CAR(v__3519202_37);
-Obj v__3517810_37 = v__3519203_37;
-Obj v__3519204_37 = PRIM_CDR(v_x2);
-Obj v__3519205_37 = PRIM_CDR(v__3519204_37);
-Obj v__3519206_37 = PRIM_EQ(Nil, v__3519205_37);
-if (True == v__3519206_37) {
-R[1] = v__3517810_37;
+Obj v__3519627_37 = R[1];
+Obj v__3519628_37 = R[2];
+Obj v__3521126_37 = primIsSymbol(v__3519627_37);
+if (True == v__3521126_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3519627_37);
+return;
+} else {
+Obj v__3519974_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519628_37, closureRef(R[0], 2), v__3519627_37, closureRef(R[0], 3));
+Obj v__3521396_37 = PRIM_ISCONS(v__3519627_37);
+if (True == v__3521396_37) {
+Obj v__3521397_37 = PRIM_CAR(v__3519627_37);
+Obj v__3521398_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3521397_37);
+if (True == v__3521398_37) {
+Obj v__3521399_37 = PRIM_CDR(v__3519627_37);
+Obj v__3521400_37 = PRIM_ISCONS(v__3521399_37);
+if (True == v__3521400_37) {
+Obj v__3521401_37 = PRIM_CDR(v__3519627_37);
+Obj v__3521402_37 = PRIM_CAR(v__3521401_37);
+Obj v__3520009_37 = v__3521402_37;
+Obj v__3521403_37 = PRIM_CDR(v__3519627_37);
+Obj v__3521404_37 = PRIM_CDR(v__3521403_37);
+Obj v__3521405_37 = PRIM_EQ(Nil, v__3521404_37);
+if (True == v__3521405_37) {
+R[1] = v__3520009_37;
 saveCont(co, clofun97, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517775_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517775_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517775_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517775_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3519209_37= co->res;
+Obj v__3521408_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3519208_37= co->res;
+Obj v__3521407_37= co->res;
 saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519208_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3521407_37);
 return;
 }
 case 3:
 {
-Obj v__3519207_37= co->res;
-Obj v__3517810_37 = R[1];
+Obj v__3521406_37= co->res;
+Obj v__3520009_37 = R[1];
 saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517810_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520009_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -2854,60 +2854,60 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517776_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3519185_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3519185_37) {
-Obj v__3519186_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3519187_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3519186_37);
-if (True == v__3519187_37) {
-Obj v__3519188_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519189_37 = PRIM_ISCONS(v__3519188_37);
-if (True == v__3519189_37) {
-Obj v__3519190_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519191_37 = PRIM_CAR(v__3519190_37);
-Obj v__3517809_37 = v__3519191_37;
-Obj v__3519192_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3519193_37 = PRIM_CDR(v__3519192_37);
-Obj v__3519194_37 = PRIM_EQ(Nil, v__3519193_37);
-if (True == v__3519194_37) {
-R[1] = v__3517809_37;
+Obj v__3519975_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3521384_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3521384_37) {
+Obj v__3521385_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3521386_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521385_37);
+if (True == v__3521386_37) {
+Obj v__3521387_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521388_37 = PRIM_ISCONS(v__3521387_37);
+if (True == v__3521388_37) {
+Obj v__3521389_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521390_37 = PRIM_CAR(v__3521389_37);
+Obj v__3520008_37 = v__3521390_37;
+Obj v__3521391_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521392_37 = PRIM_CDR(v__3521391_37);
+Obj v__3521393_37 = PRIM_EQ(Nil, v__3521392_37);
+if (True == v__3521393_37) {
+R[1] = v__3520008_37;
 saveCont(co, clofun96, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517776_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517776_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517776_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517776_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519196_37= co->res;
+Obj v__3521395_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519195_37= co->res;
-Obj v__3517809_37 = R[1];
+Obj v__3521394_37= co->res;
+Obj v__3520008_37 = R[1];
 saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517809_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520008_37);
 return;
 }
 }
@@ -2917,145 +2917,145 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517777_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3519161_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3519161_37) {
-Obj v__3519162_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3519163_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3519162_37);
-if (True == v__3519163_37) {
-Obj v__3519164_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519165_37 = PRIM_ISCONS(v__3519164_37);
-if (True == v__3519165_37) {
-Obj v__3519166_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519167_37 = PRIM_CAR(v__3519166_37);
-Obj v__3517808_37 = v__3519167_37;
-Obj v__3519168_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3519169_37 = PRIM_CDR(v__3519168_37);
-Obj v__3519170_37 = PRIM_EQ(Nil, v__3519169_37);
-if (True == v__3519170_37) {
-Obj v__3519171_37 = primIsSymbol(v__3517808_37);
-if (True == v__3519171_37) {
-R[1] = v__3517808_37;
+Obj v__3519976_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521360_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3521360_37) {
+Obj v__3521361_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3521362_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3521361_37);
+if (True == v__3521362_37) {
+Obj v__3521363_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521364_37 = PRIM_ISCONS(v__3521363_37);
+if (True == v__3521364_37) {
+Obj v__3521365_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521366_37 = PRIM_CAR(v__3521365_37);
+Obj v__3520007_37 = v__3521366_37;
+Obj v__3521367_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521368_37 = PRIM_CDR(v__3521367_37);
+Obj v__3521369_37 = PRIM_EQ(Nil, v__3521368_37);
+if (True == v__3521369_37) {
+Obj v__3521370_37 = primIsSymbol(v__3520007_37);
+if (True == v__3521370_37) {
+R[1] = v__3520007_37;
 saveCont(co, clofun95, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3517808_37;
+R[1] = v__3520007_37;
 saveCont(co, clofun95, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517808_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3520007_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517777_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517777_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517777_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517777_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519174_37= co->res;
+Obj v__3521373_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3519173_37= co->res;
+Obj v__3521372_37= co->res;
 saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519173_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521372_37);
 return;
 }
 case 3:
 {
-Obj v__3519172_37= co->res;
-Obj v__3517808_37 = R[1];
+Obj v__3521371_37= co->res;
+Obj v__3520007_37 = R[1];
 saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3517808_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520007_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3519177_37= co->res;
+Obj v__3521376_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3519176_37= co->res;
-Obj v__3517808_37 = R[1];
+Obj v__3521375_37= co->res;
+Obj v__3520007_37 = R[1];
 saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517808_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520007_37);
 return;
 }
 case 6:
 {
-Obj v__3519181_37= co->res;
+Obj v__3521380_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3519180_37= co->res;
+Obj v__3521379_37= co->res;
 saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519180_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521379_37);
 return;
 }
 case 8:
 {
-Obj v__3519179_37= co->res;
-Obj v__3517808_37 = R[1];
+Obj v__3521378_37= co->res;
+Obj v__3520007_37 = R[1];
 saveCont(co, clofun95, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3517808_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3520007_37);
 return;
 }
 case 9:
 {
-Obj v__3519175_37= co->res;
-Obj v__3517808_37 = R[1];
-if (True == v__3519175_37) {
-R[1] = v__3517808_37;
+Obj v__3521374_37= co->res;
+Obj v__3520007_37 = R[1];
+if (True == v__3521374_37) {
+R[1] = v__3520007_37;
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3519178_37 = primIsString(v__3517808_37);
-if (True == v__3519178_37) {
-R[1] = v__3517808_37;
+Obj v__3521377_37 = primIsString(v__3520007_37);
+if (True == v__3521377_37) {
+R[1] = v__3520007_37;
 saveCont(co, clofun95, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3519182_37 = PRIM_EQ(v__3517808_37, Nil);
-if (True == v__3519182_37) {
+Obj v__3521381_37 = PRIM_EQ(v__3520007_37, Nil);
+if (True == v__3521381_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3519183_37 = PRIM_EQ(v__3517808_37, True);
-if (True == v__3519183_37) {
+Obj v__3521382_37 = PRIM_EQ(v__3520007_37, True);
+if (True == v__3521382_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3519184_37 = PRIM_EQ(v__3517808_37, False);
-if (True == v__3519184_37) {
+Obj v__3521383_37 = PRIM_EQ(v__3520007_37, False);
+if (True == v__3521383_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3076,171 +3076,171 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517778_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3519126_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3519126_37) {
-Obj v__3519127_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3519128_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3519127_37);
-if (True == v__3519128_37) {
-Obj v__3519129_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519130_37 = PRIM_ISCONS(v__3519129_37);
-if (True == v__3519130_37) {
-Obj v__3519131_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519132_37 = PRIM_CAR(v__3519131_37);
-Obj v__3517805_37 = v__3519132_37;
-Obj v__3519133_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519134_37 = PRIM_CDR(v__3519133_37);
-Obj v__3519135_37 = PRIM_ISCONS(v__3519134_37);
-if (True == v__3519135_37) {
-Obj v__3519136_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519137_37 = PRIM_CDR(v__3519136_37);
-Obj v__3519138_37 = PRIM_CAR(v__3519137_37);
-Obj v__3517806_37 = v__3519138_37;
-Obj v__3519139_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519140_37 = PRIM_CDR(v__3519139_37);
-Obj v__3519141_37 = PRIM_CDR(v__3519140_37);
-Obj v__3519142_37 = PRIM_ISCONS(v__3519141_37);
-if (True == v__3519142_37) {
-Obj v__3519143_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519144_37 = PRIM_CDR(v__3519143_37);
-Obj v__3519145_37 = PRIM_CDR(v__3519144_37);
-Obj v__3519146_37 = PRIM_CAR(v__3519145_37);
-Obj v__3517807_37 = v__3519146_37;
-Obj v__3519147_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519148_37 = PRIM_CDR(v__3519147_37);
-Obj v__3519149_37 = PRIM_CDR(v__3519148_37);
-Obj v__3519150_37 = PRIM_CDR(v__3519149_37);
-Obj v__3519151_37 = PRIM_EQ(Nil, v__3519150_37);
-if (True == v__3519151_37) {
-R[1] = v__3517806_37;
-R[2] = v__3517805_37;
-R[3] = v__3517807_37;
+Obj v__3519977_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521325_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521325_37) {
+Obj v__3521326_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521327_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3521326_37);
+if (True == v__3521327_37) {
+Obj v__3521328_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521329_37 = PRIM_ISCONS(v__3521328_37);
+if (True == v__3521329_37) {
+Obj v__3521330_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521331_37 = PRIM_CAR(v__3521330_37);
+Obj v__3520004_37 = v__3521331_37;
+Obj v__3521332_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521333_37 = PRIM_CDR(v__3521332_37);
+Obj v__3521334_37 = PRIM_ISCONS(v__3521333_37);
+if (True == v__3521334_37) {
+Obj v__3521335_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521336_37 = PRIM_CDR(v__3521335_37);
+Obj v__3521337_37 = PRIM_CAR(v__3521336_37);
+Obj v__3520005_37 = v__3521337_37;
+Obj v__3521338_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521339_37 = PRIM_CDR(v__3521338_37);
+Obj v__3521340_37 = PRIM_CDR(v__3521339_37);
+Obj v__3521341_37 = PRIM_ISCONS(v__3521340_37);
+if (True == v__3521341_37) {
+Obj v__3521342_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521343_37 = PRIM_CDR(v__3521342_37);
+Obj v__3521344_37 = PRIM_CDR(v__3521343_37);
+Obj v__3521345_37 = PRIM_CAR(v__3521344_37);
+Obj v__3520006_37 = v__3521345_37;
+Obj v__3521346_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521347_37 = PRIM_CDR(v__3521346_37);
+Obj v__3521348_37 = PRIM_CDR(v__3521347_37);
+Obj v__3521349_37 = PRIM_CDR(v__3521348_37);
+Obj v__3521350_37 = PRIM_EQ(Nil, v__3521349_37);
+if (True == v__3521350_37) {
+R[1] = v__3520005_37;
+R[2] = v__3520004_37;
+R[3] = v__3520006_37;
 saveCont(co, clofun94, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517805_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3520004_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517778_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517778_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517778_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517778_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517778_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517778_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519159_37= co->res;
-Obj v__3517805_37 = R[1];
-Obj v__3517807_37 = R[2];
-Obj v__3519160_37 = makeCons(co->gc, v__3517805_37, closureRef(R[0], 5));
+Obj v__3521358_37= co->res;
+Obj v__3520004_37 = R[1];
+Obj v__3520006_37 = R[2];
+Obj v__3521359_37 = makeCons(co->gc, v__3520004_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3519159_37, v__3517807_37, v__3519160_37);
+coraCall2(co, v__3521358_37, v__3520006_37, v__3521359_37);
 return;
 }
 case 2:
 {
-Obj v__3519158_37= co->res;
-Obj v__3517805_37 = R[1];
-Obj v__3517807_37 = R[2];
-R[1] = v__3517805_37;
-R[2] = v__3517807_37;
+Obj v__3521357_37= co->res;
+Obj v__3520004_37 = R[1];
+Obj v__3520006_37 = R[2];
+R[1] = v__3520004_37;
+R[2] = v__3520006_37;
 saveCont(co, clofun94, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519157_37= co->res;
-Obj v__3517805_37 = R[1];
-Obj v__3517807_37 = R[2];
-R[1] = v__3517805_37;
-R[2] = v__3517807_37;
+Obj v__3521356_37= co->res;
+Obj v__3520004_37 = R[1];
+Obj v__3520006_37 = R[2];
+R[1] = v__3520004_37;
+R[2] = v__3520006_37;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3519156_37= co->res;
-Obj v__3517806_37 = R[1];
-Obj v__3517805_37 = R[2];
-Obj v__3517807_37 = R[3];
-R[1] = v__3517805_37;
-R[2] = v__3517807_37;
+Obj v__3521355_37= co->res;
+Obj v__3520005_37 = R[1];
+Obj v__3520004_37 = R[2];
+Obj v__3520006_37 = R[3];
+R[1] = v__3520004_37;
+R[2] = v__3520006_37;
 saveCont(co, clofun94, 3, R);
-coraCall2(co, v__3519156_37, v__3517806_37, closureRef(R[0], 5));
+coraCall2(co, v__3521355_37, v__3520005_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3519155_37= co->res;
-Obj v__3517806_37 = R[1];
-Obj v__3517805_37 = R[2];
-Obj v__3517807_37 = R[3];
-R[1] = v__3517806_37;
-R[2] = v__3517805_37;
-R[3] = v__3517807_37;
+Obj v__3521354_37= co->res;
+Obj v__3520005_37 = R[1];
+Obj v__3520004_37 = R[2];
+Obj v__3520006_37 = R[3];
+R[1] = v__3520005_37;
+R[2] = v__3520004_37;
+R[3] = v__3520006_37;
 saveCont(co, clofun94, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519154_37= co->res;
-Obj v__3517806_37 = R[1];
-Obj v__3517805_37 = R[2];
-Obj v__3517807_37 = R[3];
-R[1] = v__3517806_37;
-R[2] = v__3517805_37;
-R[3] = v__3517807_37;
+Obj v__3521353_37= co->res;
+Obj v__3520005_37 = R[1];
+Obj v__3520004_37 = R[2];
+Obj v__3520006_37 = R[3];
+R[1] = v__3520005_37;
+R[2] = v__3520004_37;
+R[3] = v__3520006_37;
 saveCont(co, clofun94, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3519153_37= co->res;
-Obj v__3517806_37 = R[1];
-Obj v__3517805_37 = R[2];
-Obj v__3517807_37 = R[3];
-R[1] = v__3517806_37;
-R[2] = v__3517805_37;
-R[3] = v__3517807_37;
+Obj v__3521352_37= co->res;
+Obj v__3520005_37 = R[1];
+Obj v__3520004_37 = R[2];
+Obj v__3520006_37 = R[3];
+R[1] = v__3520005_37;
+R[2] = v__3520004_37;
+R[3] = v__3520006_37;
 saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3517805_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3520004_37);
 return;
 }
 case 8:
 {
-Obj v__3519152_37= co->res;
-Obj v__3517806_37 = R[1];
-Obj v__3517805_37 = R[2];
-Obj v__3517807_37 = R[3];
-R[1] = v__3517806_37;
-R[2] = v__3517805_37;
-R[3] = v__3517807_37;
+Obj v__3521351_37= co->res;
+Obj v__3520005_37 = R[1];
+Obj v__3520004_37 = R[2];
+Obj v__3520006_37 = R[3];
+R[1] = v__3520005_37;
+R[2] = v__3520004_37;
+R[3] = v__3520006_37;
 saveCont(co, clofun94, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3252,153 +3252,153 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517779_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3519096_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3519096_37) {
-Obj v__3519097_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519098_37 = PRIM_ISCONS(v__3519097_37);
-if (True == v__3519098_37) {
-Obj v__3519099_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519100_37 = PRIM_CAR(v__3519099_37);
-Obj v__3519101_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3519100_37);
-if (True == v__3519101_37) {
-Obj v__3519102_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519103_37 = PRIM_CDR(v__3519102_37);
-Obj v__3519104_37 = PRIM_ISCONS(v__3519103_37);
-if (True == v__3519104_37) {
-Obj v__3519105_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519106_37 = PRIM_CDR(v__3519105_37);
-Obj v__3519107_37 = PRIM_CAR(v__3519106_37);
-Obj v__3517803_37 = v__3519107_37;
-Obj v__3519108_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519109_37 = PRIM_CDR(v__3519108_37);
-Obj v__3519110_37 = PRIM_CDR(v__3519109_37);
-Obj v__3519111_37 = PRIM_EQ(Nil, v__3519110_37);
-if (True == v__3519111_37) {
-Obj v__3519112_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3517804_37 = v__3519112_37;
-R[1] = v__3517803_37;
-R[2] = v__3517804_37;
+Obj v__3519978_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521295_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521295_37) {
+Obj v__3521296_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521297_37 = PRIM_ISCONS(v__3521296_37);
+if (True == v__3521297_37) {
+Obj v__3521298_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521299_37 = PRIM_CAR(v__3521298_37);
+Obj v__3521300_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3521299_37);
+if (True == v__3521300_37) {
+Obj v__3521301_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521302_37 = PRIM_CDR(v__3521301_37);
+Obj v__3521303_37 = PRIM_ISCONS(v__3521302_37);
+if (True == v__3521303_37) {
+Obj v__3521304_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521305_37 = PRIM_CDR(v__3521304_37);
+Obj v__3521306_37 = PRIM_CAR(v__3521305_37);
+Obj v__3520002_37 = v__3521306_37;
+Obj v__3521307_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521308_37 = PRIM_CDR(v__3521307_37);
+Obj v__3521309_37 = PRIM_CDR(v__3521308_37);
+Obj v__3521310_37 = PRIM_EQ(Nil, v__3521309_37);
+if (True == v__3521310_37) {
+Obj v__3521311_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520003_37 = v__3521311_37;
+R[1] = v__3520002_37;
+R[2] = v__3520003_37;
 saveCont(co, clofun93, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3517803_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3520002_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517779_37);
+coraCall0(co, v__3519978_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517779_37);
+coraCall0(co, v__3519978_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517779_37);
+coraCall0(co, v__3519978_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517779_37);
+coraCall0(co, v__3519978_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517779_37);
+coraCall0(co, v__3519978_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519117_37= co->res;
+Obj v__3521316_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519116_37= co->res;
-Obj v__3517804_37 = R[1];
+Obj v__3521315_37= co->res;
+Obj v__3520003_37 = R[1];
 saveCont(co, clofun93, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519120_37= co->res;
+Obj v__3521319_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3519119_37= co->res;
-Obj v__3517804_37 = R[1];
+Obj v__3521318_37= co->res;
+Obj v__3520003_37 = R[1];
 saveCont(co, clofun93, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3519123_37= co->res;
+Obj v__3521322_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3519122_37= co->res;
-Obj v__3517804_37 = R[1];
+Obj v__3521321_37= co->res;
+Obj v__3520003_37 = R[1];
 saveCont(co, clofun93, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3519125_37= co->res;
+Obj v__3521324_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3519124_37= co->res;
-Obj v__3517804_37 = R[1];
+Obj v__3521323_37= co->res;
+Obj v__3520003_37 = R[1];
 saveCont(co, clofun93, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517804_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3519114_37= co->res;
-Obj v__3517803_37 = R[1];
-Obj v__3517804_37 = R[2];
-Obj v__3519115_37 = PRIM_EQ(v__3517803_37, getBinding(co, packageID, 121).name);
-if (True == v__3519115_37) {
-R[1] = v__3517804_37;
+Obj v__3521313_37= co->res;
+Obj v__3520002_37 = R[1];
+Obj v__3520003_37 = R[2];
+Obj v__3521314_37 = PRIM_EQ(v__3520002_37, getBinding(co, packageID, 121).name);
+if (True == v__3521314_37) {
+R[1] = v__3520003_37;
 saveCont(co, clofun93, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3519118_37 = PRIM_EQ(v__3517803_37, getBinding(co, packageID, 109).name);
-if (True == v__3519118_37) {
-R[1] = v__3517804_37;
+Obj v__3521317_37 = PRIM_EQ(v__3520002_37, getBinding(co, packageID, 109).name);
+if (True == v__3521317_37) {
+R[1] = v__3520003_37;
 saveCont(co, clofun93, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3519121_37 = PRIM_EQ(v__3517803_37, getBinding(co, packageID, 118).name);
-if (True == v__3519121_37) {
-R[1] = v__3517804_37;
+Obj v__3521320_37 = PRIM_EQ(v__3520002_37, getBinding(co, packageID, 118).name);
+if (True == v__3521320_37) {
+R[1] = v__3520003_37;
 saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3517804_37;
+R[1] = v__3520003_37;
 saveCont(co, clofun93, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3408,13 +3408,13 @@ return;
 }
 case 10:
 {
-Obj v__3519113_37= co->res;
-Obj v__3517803_37 = R[1];
-Obj v__3517804_37 = R[2];
-R[1] = v__3517803_37;
-R[2] = v__3517804_37;
+Obj v__3521312_37= co->res;
+Obj v__3520002_37 = R[1];
+Obj v__3520003_37 = R[2];
+R[1] = v__3520002_37;
+R[2] = v__3520003_37;
 saveCont(co, clofun93, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3519113_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521312_37);
 return;
 }
 }
@@ -3424,165 +3424,165 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517780_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3519061_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3519061_37) {
-Obj v__3519062_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3519063_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3519062_37);
-if (True == v__3519063_37) {
-Obj v__3519064_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519065_37 = PRIM_ISCONS(v__3519064_37);
-if (True == v__3519065_37) {
-Obj v__3519066_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519067_37 = PRIM_CAR(v__3519066_37);
-Obj v__3517800_37 = v__3519067_37;
-Obj v__3519068_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519069_37 = PRIM_CDR(v__3519068_37);
-Obj v__3519070_37 = PRIM_ISCONS(v__3519069_37);
-if (True == v__3519070_37) {
-Obj v__3519071_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519072_37 = PRIM_CDR(v__3519071_37);
-Obj v__3519073_37 = PRIM_CAR(v__3519072_37);
-Obj v__3517801_37 = v__3519073_37;
-Obj v__3519074_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519075_37 = PRIM_CDR(v__3519074_37);
-Obj v__3519076_37 = PRIM_CDR(v__3519075_37);
-Obj v__3519077_37 = PRIM_ISCONS(v__3519076_37);
-if (True == v__3519077_37) {
-Obj v__3519078_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519079_37 = PRIM_CDR(v__3519078_37);
-Obj v__3519080_37 = PRIM_CDR(v__3519079_37);
-Obj v__3519081_37 = PRIM_CAR(v__3519080_37);
-Obj v__3517802_37 = v__3519081_37;
-Obj v__3519082_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519083_37 = PRIM_CDR(v__3519082_37);
-Obj v__3519084_37 = PRIM_CDR(v__3519083_37);
-Obj v__3519085_37 = PRIM_CDR(v__3519084_37);
-Obj v__3519086_37 = PRIM_EQ(Nil, v__3519085_37);
-if (True == v__3519086_37) {
-R[1] = v__3517800_37;
-R[2] = v__3517801_37;
-R[3] = v__3517802_37;
+Obj v__3519979_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521260_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521260_37) {
+Obj v__3521261_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521262_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3521261_37);
+if (True == v__3521262_37) {
+Obj v__3521263_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521264_37 = PRIM_ISCONS(v__3521263_37);
+if (True == v__3521264_37) {
+Obj v__3521265_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521266_37 = PRIM_CAR(v__3521265_37);
+Obj v__3519999_37 = v__3521266_37;
+Obj v__3521267_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521268_37 = PRIM_CDR(v__3521267_37);
+Obj v__3521269_37 = PRIM_ISCONS(v__3521268_37);
+if (True == v__3521269_37) {
+Obj v__3521270_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521271_37 = PRIM_CDR(v__3521270_37);
+Obj v__3521272_37 = PRIM_CAR(v__3521271_37);
+Obj v__3520000_37 = v__3521272_37;
+Obj v__3521273_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521274_37 = PRIM_CDR(v__3521273_37);
+Obj v__3521275_37 = PRIM_CDR(v__3521274_37);
+Obj v__3521276_37 = PRIM_ISCONS(v__3521275_37);
+if (True == v__3521276_37) {
+Obj v__3521277_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521278_37 = PRIM_CDR(v__3521277_37);
+Obj v__3521279_37 = PRIM_CDR(v__3521278_37);
+Obj v__3521280_37 = PRIM_CAR(v__3521279_37);
+Obj v__3520001_37 = v__3521280_37;
+Obj v__3521281_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521282_37 = PRIM_CDR(v__3521281_37);
+Obj v__3521283_37 = PRIM_CDR(v__3521282_37);
+Obj v__3521284_37 = PRIM_CDR(v__3521283_37);
+Obj v__3521285_37 = PRIM_EQ(Nil, v__3521284_37);
+if (True == v__3521285_37) {
+R[1] = v__3519999_37;
+R[2] = v__3520000_37;
+R[3] = v__3520001_37;
 saveCont(co, clofun92, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517780_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517780_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517780_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517780_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517780_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517780_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519095_37= co->res;
+Obj v__3521294_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3519094_37= co->res;
-Obj v__3517802_37 = R[1];
+Obj v__3521293_37= co->res;
+Obj v__3520001_37 = R[1];
 saveCont(co, clofun92, 1, R);
-coraCall2(co, v__3519094_37, v__3517802_37, closureRef(R[0], 4));
+coraCall2(co, v__3521293_37, v__3520001_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519093_37= co->res;
-Obj v__3517802_37 = R[1];
-R[1] = v__3517802_37;
+Obj v__3521292_37= co->res;
+Obj v__3520001_37 = R[1];
+R[1] = v__3520001_37;
 saveCont(co, clofun92, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3519092_37= co->res;
-Obj v__3517802_37 = R[1];
-R[1] = v__3517802_37;
+Obj v__3521291_37= co->res;
+Obj v__3520001_37 = R[1];
+R[1] = v__3520001_37;
 saveCont(co, clofun92, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3519091_37= co->res;
-Obj v__3517801_37 = R[1];
-Obj v__3517802_37 = R[2];
-R[1] = v__3517802_37;
+Obj v__3521290_37= co->res;
+Obj v__3520000_37 = R[1];
+Obj v__3520001_37 = R[2];
+R[1] = v__3520001_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, v__3519091_37, v__3517801_37, closureRef(R[0], 4));
+coraCall2(co, v__3521290_37, v__3520000_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3519090_37= co->res;
-Obj v__3517801_37 = R[1];
-Obj v__3517802_37 = R[2];
-R[1] = v__3517801_37;
-R[2] = v__3517802_37;
+Obj v__3521289_37= co->res;
+Obj v__3520000_37 = R[1];
+Obj v__3520001_37 = R[2];
+R[1] = v__3520000_37;
+R[2] = v__3520001_37;
 saveCont(co, clofun92, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3519089_37= co->res;
-Obj v__3517801_37 = R[1];
-Obj v__3517802_37 = R[2];
-R[1] = v__3517801_37;
-R[2] = v__3517802_37;
+Obj v__3521288_37= co->res;
+Obj v__3520000_37 = R[1];
+Obj v__3520001_37 = R[2];
+R[1] = v__3520000_37;
+R[2] = v__3520001_37;
 saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3519088_37= co->res;
-Obj v__3517800_37 = R[1];
-Obj v__3517801_37 = R[2];
-Obj v__3517802_37 = R[3];
-R[1] = v__3517801_37;
-R[2] = v__3517802_37;
+Obj v__3521287_37= co->res;
+Obj v__3519999_37 = R[1];
+Obj v__3520000_37 = R[2];
+Obj v__3520001_37 = R[3];
+R[1] = v__3520000_37;
+R[2] = v__3520001_37;
 saveCont(co, clofun92, 7, R);
-coraCall2(co, v__3519088_37, v__3517800_37, closureRef(R[0], 4));
+coraCall2(co, v__3521287_37, v__3519999_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3519087_37= co->res;
-Obj v__3517800_37 = R[1];
-Obj v__3517801_37 = R[2];
-Obj v__3517802_37 = R[3];
-R[1] = v__3517800_37;
-R[2] = v__3517801_37;
-R[3] = v__3517802_37;
+Obj v__3521286_37= co->res;
+Obj v__3519999_37 = R[1];
+Obj v__3520000_37 = R[2];
+Obj v__3520001_37 = R[3];
+R[1] = v__3519999_37;
+R[2] = v__3520000_37;
+R[3] = v__3520001_37;
 saveCont(co, clofun92, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3594,97 +3594,97 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517781_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3519023_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3519023_37) {
-Obj v__3519024_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3519025_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3519024_37);
-if (True == v__3519025_37) {
-Obj v__3519026_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519027_37 = PRIM_ISCONS(v__3519026_37);
-if (True == v__3519027_37) {
-Obj v__3519028_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519029_37 = PRIM_CAR(v__3519028_37);
-Obj v__3517796_37 = v__3519029_37;
-Obj v__3519030_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519031_37 = PRIM_CDR(v__3519030_37);
-Obj v__3519032_37 = PRIM_ISCONS(v__3519031_37);
-if (True == v__3519032_37) {
-Obj v__3519033_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519034_37 = PRIM_CDR(v__3519033_37);
-Obj v__3519035_37 = PRIM_CAR(v__3519034_37);
-Obj v__3517797_37 = v__3519035_37;
-Obj v__3519036_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519037_37 = PRIM_CDR(v__3519036_37);
-Obj v__3519038_37 = PRIM_CDR(v__3519037_37);
-Obj v__3519039_37 = PRIM_ISCONS(v__3519038_37);
-if (True == v__3519039_37) {
-Obj v__3519040_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519041_37 = PRIM_CDR(v__3519040_37);
-Obj v__3519042_37 = PRIM_CDR(v__3519041_37);
-Obj v__3519043_37 = PRIM_CAR(v__3519042_37);
-Obj v__3517798_37 = v__3519043_37;
-Obj v__3519044_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3519045_37 = PRIM_CDR(v__3519044_37);
-Obj v__3519046_37 = PRIM_CDR(v__3519045_37);
-Obj v__3519047_37 = PRIM_CDR(v__3519046_37);
-Obj v__3517799_37 = v__3519047_37;
-R[1] = v__3517798_37;
-R[2] = v__3517796_37;
-R[3] = v__3517797_37;
-R[4] = v__3517799_37;
+Obj v__3519980_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3521222_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521222_37) {
+Obj v__3521223_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521224_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3521223_37);
+if (True == v__3521224_37) {
+Obj v__3521225_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521226_37 = PRIM_ISCONS(v__3521225_37);
+if (True == v__3521226_37) {
+Obj v__3521227_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521228_37 = PRIM_CAR(v__3521227_37);
+Obj v__3519995_37 = v__3521228_37;
+Obj v__3521229_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521230_37 = PRIM_CDR(v__3521229_37);
+Obj v__3521231_37 = PRIM_ISCONS(v__3521230_37);
+if (True == v__3521231_37) {
+Obj v__3521232_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521233_37 = PRIM_CDR(v__3521232_37);
+Obj v__3521234_37 = PRIM_CAR(v__3521233_37);
+Obj v__3519996_37 = v__3521234_37;
+Obj v__3521235_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521236_37 = PRIM_CDR(v__3521235_37);
+Obj v__3521237_37 = PRIM_CDR(v__3521236_37);
+Obj v__3521238_37 = PRIM_ISCONS(v__3521237_37);
+if (True == v__3521238_37) {
+Obj v__3521239_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521240_37 = PRIM_CDR(v__3521239_37);
+Obj v__3521241_37 = PRIM_CDR(v__3521240_37);
+Obj v__3521242_37 = PRIM_CAR(v__3521241_37);
+Obj v__3519997_37 = v__3521242_37;
+Obj v__3521243_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521244_37 = PRIM_CDR(v__3521243_37);
+Obj v__3521245_37 = PRIM_CDR(v__3521244_37);
+Obj v__3521246_37 = PRIM_CDR(v__3521245_37);
+Obj v__3519998_37 = v__3521246_37;
+R[1] = v__3519997_37;
+R[2] = v__3519995_37;
+R[3] = v__3519996_37;
+R[4] = v__3519998_37;
 saveCont(co, clofun91, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517781_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517781_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517781_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517781_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517781_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519060_37= co->res;
+Obj v__3521259_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3519059_37= co->res;
-Obj v__3517799_37 = R[1];
+Obj v__3521258_37= co->res;
+Obj v__3519998_37 = R[1];
 saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517799_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519998_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3519057_37= co->res;
-Obj v__3517799_37 = R[1];
-Obj v__3519058_37 = primNot(v__3519057_37);
-if (True == v__3519058_37) {
-R[1] = v__3517799_37;
+Obj v__3521256_37= co->res;
+Obj v__3519998_37 = R[1];
+Obj v__3521257_37 = primNot(v__3521256_37);
+if (True == v__3521257_37) {
+R[1] = v__3519998_37;
 saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3697,98 +3697,98 @@ return;
 }
 case 4:
 {
-Obj v__3519056_37= co->res;
-Obj v__3517799_37 = R[1];
-R[1] = v__3517799_37;
+Obj v__3521255_37= co->res;
+Obj v__3519998_37 = R[1];
+R[1] = v__3519998_37;
 saveCont(co, clofun91, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517799_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519998_37);
 return;
 }
 case 5:
 {
-Obj v__3519055_37= co->res;
-Obj v__3517799_37 = R[1];
-R[1] = v__3517799_37;
+Obj v__3521254_37= co->res;
+Obj v__3519998_37 = R[1];
+R[1] = v__3519998_37;
 saveCont(co, clofun91, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519055_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521254_37);
 return;
 }
 case 6:
 {
-Obj v__3519054_37= co->res;
-Obj v__3517799_37 = R[1];
-R[1] = v__3517799_37;
+Obj v__3521253_37= co->res;
+Obj v__3519998_37 = R[1];
+R[1] = v__3519998_37;
 saveCont(co, clofun91, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517799_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519998_37);
 return;
 }
 case 7:
 {
-Obj v__3519053_37= co->res;
-Obj v__3517799_37 = R[1];
-R[1] = v__3517799_37;
+Obj v__3521252_37= co->res;
+Obj v__3519998_37 = R[1];
+R[1] = v__3519998_37;
 saveCont(co, clofun91, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3519052_37= co->res;
-Obj v__3517797_37 = R[1];
-Obj v__3517799_37 = R[2];
-R[1] = v__3517799_37;
+Obj v__3521251_37= co->res;
+Obj v__3519996_37 = R[1];
+Obj v__3519998_37 = R[2];
+R[1] = v__3519998_37;
 saveCont(co, clofun91, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517797_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519996_37);
 return;
 }
 case 9:
 {
-Obj v__3519051_37= co->res;
-Obj v__3517797_37 = R[1];
-Obj v__3517799_37 = R[2];
-R[1] = v__3517797_37;
-R[2] = v__3517799_37;
+Obj v__3521250_37= co->res;
+Obj v__3519996_37 = R[1];
+Obj v__3519998_37 = R[2];
+R[1] = v__3519996_37;
+R[2] = v__3519998_37;
 saveCont(co, clofun91, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3519050_37= co->res;
-Obj v__3517796_37 = R[1];
-Obj v__3517797_37 = R[2];
-Obj v__3517799_37 = R[3];
-R[1] = v__3517797_37;
-R[2] = v__3517799_37;
+Obj v__3521249_37= co->res;
+Obj v__3519995_37 = R[1];
+Obj v__3519996_37 = R[2];
+Obj v__3519998_37 = R[3];
+R[1] = v__3519996_37;
+R[2] = v__3519998_37;
 saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3517796_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3519995_37);
 return;
 }
 case 11:
 {
-Obj v__3519049_37= co->res;
-Obj v__3517796_37 = R[1];
-Obj v__3517797_37 = R[2];
-Obj v__3517799_37 = R[3];
-R[1] = v__3517796_37;
-R[2] = v__3517797_37;
-R[3] = v__3517799_37;
+Obj v__3521248_37= co->res;
+Obj v__3519995_37 = R[1];
+Obj v__3519996_37 = R[2];
+Obj v__3519998_37 = R[3];
+R[1] = v__3519995_37;
+R[2] = v__3519996_37;
+R[3] = v__3519998_37;
 saveCont(co, clofun91, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3519048_37= co->res;
-Obj v__3517798_37 = R[1];
-Obj v__3517796_37 = R[2];
-Obj v__3517797_37 = R[3];
-Obj v__3517799_37 = R[4];
-R[1] = v__3517796_37;
-R[2] = v__3517797_37;
-R[3] = v__3517799_37;
+Obj v__3521247_37= co->res;
+Obj v__3519997_37 = R[1];
+Obj v__3519995_37 = R[2];
+Obj v__3519996_37 = R[3];
+Obj v__3519998_37 = R[4];
+R[1] = v__3519995_37;
+R[2] = v__3519996_37;
+R[3] = v__3519998_37;
 saveCont(co, clofun91, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517798_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519997_37);
 return;
 }
 }
@@ -3798,96 +3798,96 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517782_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3519002_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3519002_37) {
-Obj v__3519003_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3519004_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3519003_37);
-if (True == v__3519004_37) {
-Obj v__3519005_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519006_37 = PRIM_ISCONS(v__3519005_37);
-if (True == v__3519006_37) {
-Obj v__3519007_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519008_37 = PRIM_CAR(v__3519007_37);
-Obj v__3517794_37 = v__3519008_37;
-Obj v__3519009_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519010_37 = PRIM_CDR(v__3519009_37);
-Obj v__3519011_37 = PRIM_ISCONS(v__3519010_37);
-if (True == v__3519011_37) {
-Obj v__3519012_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519013_37 = PRIM_CDR(v__3519012_37);
-Obj v__3519014_37 = PRIM_CAR(v__3519013_37);
-Obj v__3517795_37 = v__3519014_37;
-Obj v__3519015_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3519016_37 = PRIM_CDR(v__3519015_37);
-Obj v__3519017_37 = PRIM_CDR(v__3519016_37);
-Obj v__3519018_37 = PRIM_EQ(Nil, v__3519017_37);
-if (True == v__3519018_37) {
-R[1] = v__3517794_37;
-R[2] = v__3517795_37;
+Obj v__3519981_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521201_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521201_37) {
+Obj v__3521202_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521203_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3521202_37);
+if (True == v__3521203_37) {
+Obj v__3521204_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521205_37 = PRIM_ISCONS(v__3521204_37);
+if (True == v__3521205_37) {
+Obj v__3521206_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521207_37 = PRIM_CAR(v__3521206_37);
+Obj v__3519993_37 = v__3521207_37;
+Obj v__3521208_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521209_37 = PRIM_CDR(v__3521208_37);
+Obj v__3521210_37 = PRIM_ISCONS(v__3521209_37);
+if (True == v__3521210_37) {
+Obj v__3521211_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521212_37 = PRIM_CDR(v__3521211_37);
+Obj v__3521213_37 = PRIM_CAR(v__3521212_37);
+Obj v__3519994_37 = v__3521213_37;
+Obj v__3521214_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521215_37 = PRIM_CDR(v__3521214_37);
+Obj v__3521216_37 = PRIM_CDR(v__3521215_37);
+Obj v__3521217_37 = PRIM_EQ(Nil, v__3521216_37);
+if (True == v__3521217_37) {
+R[1] = v__3519993_37;
+R[2] = v__3519994_37;
 saveCont(co, clofun90, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517782_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517782_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517782_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517782_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517782_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519022_37= co->res;
-Obj v__3517795_37 = R[1];
+Obj v__3521221_37= co->res;
+Obj v__3519994_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3519022_37, v__3517795_37, closureRef(R[0], 5));
+coraCall2(co, v__3521221_37, v__3519994_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3519021_37= co->res;
-Obj v__3517795_37 = R[1];
-R[1] = v__3517795_37;
+Obj v__3521220_37= co->res;
+Obj v__3519994_37 = R[1];
+R[1] = v__3519994_37;
 saveCont(co, clofun90, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3519020_37= co->res;
-Obj v__3517795_37 = R[1];
-R[1] = v__3517795_37;
+Obj v__3521219_37= co->res;
+Obj v__3519994_37 = R[1];
+R[1] = v__3519994_37;
 saveCont(co, clofun90, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3519019_37= co->res;
-Obj v__3517794_37 = R[1];
-Obj v__3517795_37 = R[2];
-R[1] = v__3517795_37;
+Obj v__3521218_37= co->res;
+Obj v__3519993_37 = R[1];
+Obj v__3519994_37 = R[2];
+R[1] = v__3519994_37;
 saveCont(co, clofun90, 3, R);
-coraCall2(co, v__3519019_37, v__3517794_37, closureRef(R[0], 5));
+coraCall2(co, v__3521218_37, v__3519993_37, closureRef(R[0], 5));
 return;
 }
 }
@@ -3897,74 +3897,74 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517783_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518988_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518988_37) {
-Obj v__3518989_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518990_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518989_37);
-if (True == v__3518990_37) {
-Obj v__3518991_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518992_37 = PRIM_ISCONS(v__3518991_37);
-if (True == v__3518992_37) {
-Obj v__3518993_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518994_37 = PRIM_CAR(v__3518993_37);
-Obj v__3517793_37 = v__3518994_37;
-Obj v__3518995_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518996_37 = PRIM_CDR(v__3518995_37);
-Obj v__3518997_37 = PRIM_EQ(Nil, v__3518996_37);
-if (True == v__3518997_37) {
-R[1] = v__3517793_37;
+Obj v__3519982_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521187_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521187_37) {
+Obj v__3521188_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521189_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521188_37);
+if (True == v__3521189_37) {
+Obj v__3521190_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521191_37 = PRIM_ISCONS(v__3521190_37);
+if (True == v__3521191_37) {
+Obj v__3521192_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521193_37 = PRIM_CAR(v__3521192_37);
+Obj v__3519992_37 = v__3521193_37;
+Obj v__3521194_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521195_37 = PRIM_CDR(v__3521194_37);
+Obj v__3521196_37 = PRIM_EQ(Nil, v__3521195_37);
+if (True == v__3521196_37) {
+R[1] = v__3519992_37;
 saveCont(co, clofun89, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517783_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517783_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517783_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517783_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3519001_37= co->res;
+Obj v__3521200_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3519000_37= co->res;
+Obj v__3521199_37= co->res;
 saveCont(co, clofun89, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3518999_37= co->res;
-Obj v__3517793_37 = R[1];
+Obj v__3521198_37= co->res;
+Obj v__3519992_37 = R[1];
 saveCont(co, clofun89, 2, R);
-coraCall2(co, v__3518999_37, v__3517793_37, closureRef(R[0], 4));
+coraCall2(co, v__3521198_37, v__3519992_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3518998_37= co->res;
-Obj v__3517793_37 = R[1];
-R[1] = v__3517793_37;
+Obj v__3521197_37= co->res;
+Obj v__3519992_37 = R[1];
+R[1] = v__3519992_37;
 saveCont(co, clofun89, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3976,67 +3976,67 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517784_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518975_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3518975_37) {
-Obj v__3518976_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3518977_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518976_37);
-if (True == v__3518977_37) {
-Obj v__3518978_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518979_37 = PRIM_ISCONS(v__3518978_37);
-if (True == v__3518979_37) {
-Obj v__3518980_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518981_37 = PRIM_CAR(v__3518980_37);
-Obj v__3517792_37 = v__3518981_37;
-Obj v__3518982_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3518983_37 = PRIM_CDR(v__3518982_37);
-Obj v__3518984_37 = PRIM_EQ(Nil, v__3518983_37);
-if (True == v__3518984_37) {
-R[1] = v__3517792_37;
+Obj v__3519983_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521174_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521174_37) {
+Obj v__3521175_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521176_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521175_37);
+if (True == v__3521176_37) {
+Obj v__3521177_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521178_37 = PRIM_ISCONS(v__3521177_37);
+if (True == v__3521178_37) {
+Obj v__3521179_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521180_37 = PRIM_CAR(v__3521179_37);
+Obj v__3519991_37 = v__3521180_37;
+Obj v__3521181_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521182_37 = PRIM_CDR(v__3521181_37);
+Obj v__3521183_37 = PRIM_EQ(Nil, v__3521182_37);
+if (True == v__3521183_37) {
+R[1] = v__3519991_37;
 saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517784_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517784_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517784_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517784_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518987_37= co->res;
+Obj v__3521186_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518986_37= co->res;
-Obj v__3517792_37 = R[1];
+Obj v__3521185_37= co->res;
+Obj v__3519991_37 = R[1];
 saveCont(co, clofun88, 1, R);
-coraCall2(co, v__3518986_37, v__3517792_37, closureRef(R[0], 4));
+coraCall2(co, v__3521185_37, v__3519991_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518985_37= co->res;
-Obj v__3517792_37 = R[1];
-R[1] = v__3517792_37;
+Obj v__3521184_37= co->res;
+Obj v__3519991_37 = R[1];
+R[1] = v__3519991_37;
 saveCont(co, clofun88, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -4048,129 +4048,129 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517785_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3518951_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518951_37) {
-Obj v__3518952_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518953_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518952_37);
-if (True == v__3518953_37) {
-Obj v__3518954_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518955_37 = PRIM_ISCONS(v__3518954_37);
-if (True == v__3518955_37) {
-Obj v__3518956_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518957_37 = PRIM_CAR(v__3518956_37);
-Obj v__3517789_37 = v__3518957_37;
-Obj v__3518958_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518959_37 = PRIM_CDR(v__3518958_37);
-Obj v__3518960_37 = PRIM_ISCONS(v__3518959_37);
-if (True == v__3518960_37) {
-Obj v__3518961_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518962_37 = PRIM_CDR(v__3518961_37);
-Obj v__3518963_37 = PRIM_CAR(v__3518962_37);
-Obj v__3517790_37 = v__3518963_37;
-Obj v__3518964_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518965_37 = PRIM_CDR(v__3518964_37);
-Obj v__3518966_37 = PRIM_CDR(v__3518965_37);
-Obj v__3517791_37 = v__3518966_37;
-R[1] = v__3517790_37;
-R[2] = v__3517789_37;
+Obj v__3519984_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521150_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521150_37) {
+Obj v__3521151_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521152_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3521151_37);
+if (True == v__3521152_37) {
+Obj v__3521153_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521154_37 = PRIM_ISCONS(v__3521153_37);
+if (True == v__3521154_37) {
+Obj v__3521155_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521156_37 = PRIM_CAR(v__3521155_37);
+Obj v__3519988_37 = v__3521156_37;
+Obj v__3521157_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521158_37 = PRIM_CDR(v__3521157_37);
+Obj v__3521159_37 = PRIM_ISCONS(v__3521158_37);
+if (True == v__3521159_37) {
+Obj v__3521160_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521161_37 = PRIM_CDR(v__3521160_37);
+Obj v__3521162_37 = PRIM_CAR(v__3521161_37);
+Obj v__3519989_37 = v__3521162_37;
+Obj v__3521163_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521164_37 = PRIM_CDR(v__3521163_37);
+Obj v__3521165_37 = PRIM_CDR(v__3521164_37);
+Obj v__3519990_37 = v__3521165_37;
+R[1] = v__3519989_37;
+R[2] = v__3519988_37;
 saveCont(co, clofun87, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3517791_37};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3519990_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517785_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517785_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517785_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517785_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518974_37= co->res;
+Obj v__3521173_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3518973_37= co->res;
-Obj v__3517789_37 = R[1];
+Obj v__3521172_37= co->res;
+Obj v__3519988_37 = R[1];
 saveCont(co, clofun87, 1, R);
-coraCall2(co, v__3518973_37, v__3517789_37, closureRef(R[0], 4));
+coraCall2(co, v__3521172_37, v__3519988_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3518972_37= co->res;
-Obj v__3517789_37 = R[1];
-R[1] = v__3517789_37;
+Obj v__3521171_37= co->res;
+Obj v__3519988_37 = R[1];
+R[1] = v__3519988_37;
 saveCont(co, clofun87, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3518971_37= co->res;
-Obj v__3517789_37 = R[1];
-R[1] = v__3517789_37;
+Obj v__3521170_37= co->res;
+Obj v__3519988_37 = R[1];
+R[1] = v__3519988_37;
 saveCont(co, clofun87, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3518970_37= co->res;
-Obj v__3517790_37 = R[1];
-Obj v__3517789_37 = R[2];
-R[1] = v__3517789_37;
+Obj v__3521169_37= co->res;
+Obj v__3519989_37 = R[1];
+Obj v__3519988_37 = R[2];
+R[1] = v__3519988_37;
 saveCont(co, clofun87, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517790_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519989_37);
 return;
 }
 case 6:
 {
-Obj v__3518969_37= co->res;
-Obj v__3517790_37 = R[1];
-Obj v__3517789_37 = R[2];
-R[1] = v__3517790_37;
-R[2] = v__3517789_37;
+Obj v__3521168_37= co->res;
+Obj v__3519989_37 = R[1];
+Obj v__3519988_37 = R[2];
+R[1] = v__3519989_37;
+R[2] = v__3519988_37;
 saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3518968_37= co->res;
-Obj v__3517790_37 = R[1];
-Obj v__3517789_37 = R[2];
-R[1] = v__3517790_37;
-R[2] = v__3517789_37;
+Obj v__3521167_37= co->res;
+Obj v__3519989_37 = R[1];
+Obj v__3519988_37 = R[2];
+R[1] = v__3519989_37;
+R[2] = v__3519988_37;
 saveCont(co, clofun87, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3518967_37= co->res;
-Obj v__3517790_37 = R[1];
-Obj v__3517789_37 = R[2];
-R[1] = v__3517790_37;
-R[2] = v__3517789_37;
+Obj v__3521166_37= co->res;
+Obj v__3519989_37 = R[1];
+Obj v__3519988_37 = R[2];
+R[1] = v__3519989_37;
+R[2] = v__3519988_37;
 saveCont(co, clofun87, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4182,16 +4182,16 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518928_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518928_37) {
-Obj v__3518929_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517786_37 = v__3518929_37;
-Obj v__3518930_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517787_37 = v__3518930_37;
-R[1] = v__3517786_37;
-R[2] = v__3517787_37;
+Obj v__3521127_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521127_37) {
+Obj v__3521128_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519985_37 = v__3521128_37;
+Obj v__3521129_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519986_37 = v__3521129_37;
+R[1] = v__3519985_37;
+R[2] = v__3519986_37;
 saveCont(co, clofun86, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517787_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519986_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4201,134 +4201,134 @@ return;
 }
 case 1:
 {
-Obj v__3518942_37= co->res;
+Obj v__3521141_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3518941_37= co->res;
-Obj v__3517788_37 = R[1];
+Obj v__3521140_37= co->res;
+Obj v__3519987_37 = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517788_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519987_37);
 return;
 }
 case 3:
 {
-Obj v__3518940_37= co->res;
-Obj v__3517788_37 = R[1];
-R[1] = v__3517788_37;
+Obj v__3521139_37= co->res;
+Obj v__3519987_37 = R[1];
+R[1] = v__3519987_37;
 saveCont(co, clofun86, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3518939_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-R[1] = v__3517788_37;
+Obj v__3521138_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+R[1] = v__3519987_37;
 saveCont(co, clofun86, 3, R);
-coraCall2(co, v__3518939_37, v__3517786_37, closureRef(R[0], 4));
+coraCall2(co, v__3521138_37, v__3519985_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3518938_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
+Obj v__3521137_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
 saveCont(co, clofun86, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3518937_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
+Obj v__3521136_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
 saveCont(co, clofun86, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3518936_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
+Obj v__3521135_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
 saveCont(co, clofun86, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3518935_37= co->res;
-Obj v__3517787_37 = R[1];
-Obj v__3517786_37 = R[2];
-Obj v__3517788_37 = R[3];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
+Obj v__3521134_37= co->res;
+Obj v__3519986_37 = R[1];
+Obj v__3519985_37 = R[2];
+Obj v__3519987_37 = R[3];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
 saveCont(co, clofun86, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517787_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519986_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3518934_37= co->res;
-Obj v__3517787_37 = R[1];
-Obj v__3517786_37 = R[2];
-Obj v__3517788_37 = R[3];
-R[1] = v__3517787_37;
-R[2] = v__3517786_37;
-R[3] = v__3517788_37;
+Obj v__3521133_37= co->res;
+Obj v__3519986_37 = R[1];
+Obj v__3519985_37 = R[2];
+Obj v__3519987_37 = R[3];
+R[1] = v__3519986_37;
+R[2] = v__3519985_37;
+R[3] = v__3519987_37;
 saveCont(co, clofun86, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3518933_37= co->res;
-Obj v__3517787_37 = R[1];
-Obj v__3517786_37 = R[2];
-Obj v__3517788_37 = R[3];
-R[1] = v__3517787_37;
-R[2] = v__3517786_37;
-R[3] = v__3517788_37;
+Obj v__3521132_37= co->res;
+Obj v__3519986_37 = R[1];
+Obj v__3519985_37 = R[2];
+Obj v__3519987_37 = R[3];
+R[1] = v__3519986_37;
+R[2] = v__3519985_37;
+R[3] = v__3519987_37;
 saveCont(co, clofun86, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517788_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519987_37);
 return;
 }
 case 11:
 {
-Obj v__3518950_37= co->res;
+Obj v__3521149_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3518949_37= co->res;
-Obj v__3517787_37 = R[1];
+Obj v__3521148_37= co->res;
+Obj v__3519986_37 = R[1];
 saveCont(co, clofun86, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3517787_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519986_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3518947_37= co->res;
-Obj v__3517788_37 = R[1];
-Obj v__3517787_37 = R[2];
-Obj v__3518948_37 = PRIM_GT(v__3517788_37, MAKE_NUMBER(0));
-if (True == v__3518948_37) {
-R[1] = v__3517787_37;
+Obj v__3521146_37= co->res;
+Obj v__3519987_37 = R[1];
+Obj v__3519986_37 = R[2];
+Obj v__3521147_37 = PRIM_GT(v__3519987_37, MAKE_NUMBER(0));
+if (True == v__3521147_37) {
+R[1] = v__3519986_37;
 saveCont(co, clofun86, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4341,73 +4341,73 @@ return;
 }
 case 14:
 {
-Obj v__3518946_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-Obj v__3517787_37 = R[3];
-R[1] = v__3517788_37;
-R[2] = v__3517787_37;
+Obj v__3521145_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+Obj v__3519986_37 = R[3];
+R[1] = v__3519987_37;
+R[2] = v__3519986_37;
 saveCont(co, clofun86, 13, R);
-coraCall2(co, v__3518946_37, v__3517786_37, closureRef(R[0], 4));
+coraCall2(co, v__3521145_37, v__3519985_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3518945_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-Obj v__3517787_37 = R[3];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
-R[3] = v__3517787_37;
+Obj v__3521144_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+Obj v__3519986_37 = R[3];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
+R[3] = v__3519986_37;
 saveCont(co, clofun86, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3518944_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-Obj v__3517787_37 = R[3];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
-R[3] = v__3517787_37;
+Obj v__3521143_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+Obj v__3519986_37 = R[3];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
+R[3] = v__3519986_37;
 saveCont(co, clofun86, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3518943_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517788_37 = R[2];
-Obj v__3517787_37 = R[3];
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
-R[3] = v__3517787_37;
+Obj v__3521142_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519987_37 = R[2];
+Obj v__3519986_37 = R[3];
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
+R[3] = v__3519986_37;
 saveCont(co, clofun86, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3517788_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519987_37);
 return;
 }
 case 18:
 {
-Obj v__3518931_37= co->res;
-Obj v__3517786_37 = R[1];
-Obj v__3517787_37 = R[2];
-Obj v__3517788_37 = v__3518931_37;
-Obj v__3518932_37 = PRIM_GT(v__3517788_37, MAKE_NUMBER(4));
-if (True == v__3518932_37) {
-R[1] = v__3517787_37;
-R[2] = v__3517786_37;
-R[3] = v__3517788_37;
+Obj v__3521130_37= co->res;
+Obj v__3519985_37 = R[1];
+Obj v__3519986_37 = R[2];
+Obj v__3519987_37 = v__3521130_37;
+Obj v__3521131_37 = PRIM_GT(v__3519987_37, MAKE_NUMBER(4));
+if (True == v__3521131_37) {
+R[1] = v__3519986_37;
+R[2] = v__3519985_37;
+R[3] = v__3519987_37;
 saveCont(co, clofun86, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3517786_37;
-R[2] = v__3517788_37;
-R[3] = v__3517787_37;
+R[1] = v__3519985_37;
+R[2] = v__3519987_37;
+R[3] = v__3519986_37;
 saveCont(co, clofun86, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4420,13 +4420,13 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env = R[3];
-Obj v_w = R[4];
-Obj v_ls = R[5];
+Obj v__3519614_37 = R[1];
+Obj v__3519615_37 = R[2];
+Obj v__3519616_37 = R[3];
+Obj v__3519617_37 = R[4];
+Obj v__3519618_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun84, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun84, 2, 4, v__3519614_37, v__3519615_37, v__3519616_37, v__3519617_37), MAKE_NUMBER(1), v__3519618_37);
 return;
 }
 }
@@ -4436,57 +4436,57 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_v = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3519619_37 = R[1];
+Obj v__3519620_37 = R[2];
+R[1] = v__3519620_37;
+R[2] = v__3519619_37;
 saveCont(co, clofun84, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3518923_37= co->res;
-Obj v_acc = R[1];
-Obj v__3518924_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518924_37);
+Obj v__3521122_37= co->res;
+Obj v__3519619_37 = R[1];
+Obj v__3521123_37 = PRIM_ADD(v__3519619_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521123_37);
 return;
 }
 case 2:
 {
-Obj v__3518922_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521121_37= co->res;
+Obj v__3519619_37 = R[1];
+R[1] = v__3519619_37;
 saveCont(co, clofun84, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3518921_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521120_37= co->res;
+Obj v__3519619_37 = R[1];
+R[1] = v__3519619_37;
 saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519619_37);
 return;
 }
 case 4:
 {
-Obj v__3518920_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521119_37= co->res;
+Obj v__3519619_37 = R[1];
+R[1] = v__3519619_37;
 saveCont(co, clofun84, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3518919_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521118_37= co->res;
+Obj v__3519620_37 = R[1];
+Obj v__3519619_37 = R[2];
+R[1] = v__3519619_37;
 saveCont(co, clofun84, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519620_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
@@ -4497,13 +4497,13 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_globals = R[1];
-Obj v_self = R[2];
-Obj v_env = R[3];
-Obj v_w = R[4];
-Obj v_ls = R[5];
+Obj v__3519607_37 = R[1];
+Obj v__3519608_37 = R[2];
+Obj v__3519609_37 = R[3];
+Obj v__3519610_37 = R[4];
+Obj v__3519611_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, v_globals, v_self, v_env, v_w), MAKE_NUMBER(1), v_ls);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, v__3519607_37, v__3519608_37, v__3519609_37, v__3519610_37), MAKE_NUMBER(1), v__3519611_37);
 return;
 }
 }
@@ -4513,62 +4513,62 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_v = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3519612_37 = R[1];
+Obj v__3519613_37 = R[2];
+R[1] = v__3519613_37;
+R[2] = v__3519612_37;
 saveCont(co, clofun82, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3518916_37= co->res;
-Obj v_acc = R[1];
-Obj v__3518917_37 = PRIM_ADD(v_acc, MAKE_NUMBER(1));
-coraReturn(co, v__3518917_37);
+Obj v__3521115_37= co->res;
+Obj v__3519612_37 = R[1];
+Obj v__3521116_37 = PRIM_ADD(v__3519612_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521116_37);
 return;
 }
 case 2:
 {
-Obj v__3518915_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521114_37= co->res;
+Obj v__3519612_37 = R[1];
+R[1] = v__3519612_37;
 saveCont(co, clofun82, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3518914_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_acc;
+Obj v__3521113_37= co->res;
+Obj v__3519613_37 = R[1];
+Obj v__3519612_37 = R[2];
+R[1] = v__3519612_37;
 saveCont(co, clofun82, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v_v};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519613_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3518913_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3521112_37= co->res;
+Obj v__3519613_37 = R[1];
+Obj v__3519612_37 = R[2];
+R[1] = v__3519613_37;
+R[2] = v__3519612_37;
 saveCont(co, clofun82, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3518912_37= co->res;
-Obj v_v = R[1];
-Obj v_acc = R[2];
-R[1] = v_v;
-R[2] = v_acc;
+Obj v__3521111_37= co->res;
+Obj v__3519613_37 = R[1];
+Obj v__3519612_37 = R[2];
+R[1] = v__3519613_37;
+R[2] = v__3519612_37;
 saveCont(co, clofun82, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v_acc);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519612_37);
 return;
 }
 }
@@ -4578,10 +4578,10 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_sym = R[1];
-Obj v_globals = R[2];
+Obj v__3519605_37 = R[1];
+Obj v__3519606_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v_sym, v_globals);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v__3519605_37, v__3519606_37);
 return;
 }
 }
@@ -4591,36 +4591,36 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_idx = R[1];
-Obj v_sym = R[2];
-Obj v_globals = R[3];
-R[1] = v_idx;
-R[2] = v_globals;
-R[3] = v_sym;
+Obj v__3519602_37 = R[1];
+Obj v__3519603_37 = R[2];
+Obj v__3519604_37 = R[3];
+R[1] = v__3519602_37;
+R[2] = v__3519604_37;
+R[3] = v__3519603_37;
 saveCont(co, clofun80, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519604_37);
 return;
 }
 case 1:
 {
-Obj v__3518905_37= co->res;
-Obj v_idx = R[1];
-Obj v_globals = R[2];
-Obj v_sym = R[3];
-if (True == v__3518905_37) {
+Obj v__3521104_37= co->res;
+Obj v__3519602_37 = R[1];
+Obj v__3519604_37 = R[2];
+Obj v__3519603_37 = R[3];
+if (True == v__3521104_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3518906_37 = PRIM_CAR(v_globals);
-Obj v__3518907_37 = PRIM_EQ(v_sym, v__3518906_37);
-if (True == v__3518907_37) {
-coraReturn(co, v_idx);
+Obj v__3521105_37 = PRIM_CAR(v__3519604_37);
+Obj v__3521106_37 = PRIM_EQ(v__3519603_37, v__3521105_37);
+if (True == v__3521106_37) {
+coraReturn(co, v__3519602_37);
 return;
 } else {
-Obj v__3518908_37 = PRIM_ADD(v_idx, MAKE_NUMBER(1));
-Obj v__3518909_37 = PRIM_CDR(v_globals);
+Obj v__3521107_37 = PRIM_ADD(v__3519602_37, MAKE_NUMBER(1));
+Obj v__3521108_37 = PRIM_CDR(v__3519604_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3518908_37, v_sym, v__3518909_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3521107_37, v__3519603_37, v__3521108_37);
 return;
 }
 }
@@ -4632,41 +4632,41 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_sym = R[1];
-Obj v_globals = R[2];
-R[1] = v_sym;
-R[2] = v_globals;
+Obj v__3519599_37 = R[1];
+Obj v__3519600_37 = R[2];
+R[1] = v__3519599_37;
+R[2] = v__3519600_37;
 saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v_globals);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519600_37);
 return;
 }
 case 1:
 {
-Obj v__3518901_37= co->res;
-Obj v_sym = R[1];
-Obj v__3517773_37 = R[2];
-Obj v_globals = R[3];
-if (True == v__3518901_37) {
+Obj v__3521100_37= co->res;
+Obj v__3519599_37 = R[1];
+Obj v__3519972_37 = R[2];
+Obj v__3519600_37 = R[3];
+if (True == v__3521100_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518902_37 = makeCons(co->gc, v_sym, v__3517773_37);
-Obj v__3518903_37 = primSet(co, v_globals, v__3518902_37);
-coraReturn(co, v__3518903_37);
+Obj v__3521101_37 = makeCons(co->gc, v__3519599_37, v__3519972_37);
+Obj v__3521102_37 = primSet(co, v__3519600_37, v__3521101_37);
+coraReturn(co, v__3521102_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518900_37= co->res;
-Obj v_sym = R[1];
-Obj v_globals = R[2];
-Obj v__3517773_37 = v__3518900_37;
-R[1] = v_sym;
-R[2] = v__3517773_37;
-R[3] = v_globals;
+Obj v__3521099_37= co->res;
+Obj v__3519599_37 = R[1];
+Obj v__3519600_37 = R[2];
+Obj v__3519972_37 = v__3521099_37;
+R[1] = v__3519599_37;
+R[2] = v__3519972_37;
+R[3] = v__3519600_37;
 saveCont(co, clofun79, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v_sym, v__3517773_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519599_37, v__3519972_37);
 return;
 }
 }
@@ -4676,26 +4676,26 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v_k = R[2];
-Obj v__3518893_37 = primGenSym(co);
-Obj v__3517772_37 = v__3518893_37;
-R[1] = v_x;
-R[2] = v__3517772_37;
+Obj v__3519596_37 = R[1];
+Obj v__3519597_37 = R[2];
+Obj v__3521092_37 = primGenSym(co);
+Obj v__3519971_37 = v__3521092_37;
+R[1] = v__3519596_37;
+R[2] = v__3519971_37;
 saveCont(co, clofun78, 1, R);
-coraCall1(co, v_k, v__3517772_37);
+coraCall1(co, v__3519597_37, v__3519971_37);
 return;
 }
 case 1:
 {
-Obj v__3518894_37= co->res;
-Obj v_x = R[1];
-Obj v__3517772_37 = R[2];
-Obj v__3518895_37 = makeCons(co->gc, v__3518894_37, Nil);
-Obj v__3518896_37 = makeCons(co->gc, v_x, v__3518895_37);
-Obj v__3518897_37 = makeCons(co->gc, v__3517772_37, v__3518896_37);
-Obj v__3518898_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518897_37);
-coraReturn(co, v__3518898_37);
+Obj v__3521093_37= co->res;
+Obj v__3519596_37 = R[1];
+Obj v__3519971_37 = R[2];
+Obj v__3521094_37 = makeCons(co->gc, v__3521093_37, Nil);
+Obj v__3521095_37 = makeCons(co->gc, v__3519596_37, v__3521094_37);
+Obj v__3521096_37 = makeCons(co->gc, v__3519971_37, v__3521095_37);
+Obj v__3521097_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3521096_37);
+coraReturn(co, v__3521097_37);
 return;
 }
 }
@@ -4705,52 +4705,52 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_v = R[1];
-Obj v_val = R[2];
-R[1] = v_val;
-R[2] = v_v;
+Obj v__3519591_37 = R[1];
+Obj v__3519592_37 = R[2];
+R[1] = v__3519592_37;
+R[2] = v__3519591_37;
 saveCont(co, clofun77, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519591_37, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3518891_37= co->res;
-Obj v_v = R[1];
-Obj v__3517771_37 = R[2];
+Obj v__3521090_37= co->res;
+Obj v__3519591_37 = R[1];
+Obj v__3519970_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(1), v__3517771_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519591_37, MAKE_NUMBER(1), v__3519970_37);
 return;
 }
 case 2:
 {
-Obj v__3518886_37= co->res;
-Obj v_val = R[1];
-Obj v__3517769_37 = R[2];
-Obj v_v = R[3];
-Obj v__3517770_37 = v__3518886_37;
-Obj v__3518887_37 = makeCons(co->gc, v_val, Nil);
-Obj v__3518888_37 = makeCons(co->gc, v__3517769_37, v__3518887_37);
-Obj v__3518889_37 = makeCons(co->gc, v__3518888_37, v__3517770_37);
-Obj v__3517771_37 = v__3518889_37;
-Obj v__3518890_37 = PRIM_ADD(v__3517769_37, MAKE_NUMBER(1));
-R[1] = v_v;
-R[2] = v__3517771_37;
+Obj v__3521085_37= co->res;
+Obj v__3519592_37 = R[1];
+Obj v__3519968_37 = R[2];
+Obj v__3519591_37 = R[3];
+Obj v__3519969_37 = v__3521085_37;
+Obj v__3521086_37 = makeCons(co->gc, v__3519592_37, Nil);
+Obj v__3521087_37 = makeCons(co->gc, v__3519968_37, v__3521086_37);
+Obj v__3521088_37 = makeCons(co->gc, v__3521087_37, v__3519969_37);
+Obj v__3519970_37 = v__3521088_37;
+Obj v__3521089_37 = PRIM_ADD(v__3519968_37, MAKE_NUMBER(1));
+R[1] = v__3519591_37;
+R[2] = v__3519970_37;
 saveCont(co, clofun77, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v_v, MAKE_NUMBER(0), v__3518890_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519591_37, MAKE_NUMBER(0), v__3521089_37);
 return;
 }
 case 3:
 {
-Obj v__3518885_37= co->res;
-Obj v_val = R[1];
-Obj v_v = R[2];
-Obj v__3517769_37 = v__3518885_37;
-R[1] = v_val;
-R[2] = v__3517769_37;
-R[3] = v_v;
+Obj v__3521084_37= co->res;
+Obj v__3519592_37 = R[1];
+Obj v__3519591_37 = R[2];
+Obj v__3519968_37 = v__3521084_37;
+R[1] = v__3519592_37;
+R[2] = v__3519968_37;
+R[3] = v__3519591_37;
 saveCont(co, clofun77, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v_v, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519591_37, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4760,195 +4760,195 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517541_37 = R[1];
-Obj v__3517542_37 = R[2];
-Obj v__3517761_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3517541_37, v__3517542_37);
-Obj v__3518836_37 = PRIM_ISCONS(v__3517542_37);
-if (True == v__3518836_37) {
-Obj v__3518837_37 = PRIM_CAR(v__3517542_37);
-Obj v__3518838_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518837_37);
-if (True == v__3518838_37) {
-Obj v__3518839_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518840_37 = PRIM_ISCONS(v__3518839_37);
-if (True == v__3518840_37) {
-Obj v__3518841_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518842_37 = PRIM_CAR(v__3518841_37);
-Obj v__3518843_37 = PRIM_ISCONS(v__3518842_37);
-if (True == v__3518843_37) {
-Obj v__3518844_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518845_37 = PRIM_CAR(v__3518844_37);
-Obj v__3518846_37 = PRIM_CAR(v__3518845_37);
-Obj v__3518847_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518846_37);
-if (True == v__3518847_37) {
-Obj v__3518848_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518849_37 = PRIM_CAR(v__3518848_37);
-Obj v__3518850_37 = PRIM_CDR(v__3518849_37);
-Obj v__3518851_37 = PRIM_ISCONS(v__3518850_37);
-if (True == v__3518851_37) {
-Obj v__3518852_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518853_37 = PRIM_CAR(v__3518852_37);
-Obj v__3518854_37 = PRIM_CDR(v__3518853_37);
-Obj v__3518855_37 = PRIM_CAR(v__3518854_37);
-Obj v__3517762_37 = v__3518855_37;
-Obj v__3518856_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518857_37 = PRIM_CAR(v__3518856_37);
-Obj v__3518858_37 = PRIM_CDR(v__3518857_37);
-Obj v__3518859_37 = PRIM_CDR(v__3518858_37);
-Obj v__3518860_37 = PRIM_ISCONS(v__3518859_37);
-if (True == v__3518860_37) {
-Obj v__3518861_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518862_37 = PRIM_CAR(v__3518861_37);
-Obj v__3518863_37 = PRIM_CDR(v__3518862_37);
-Obj v__3518864_37 = PRIM_CDR(v__3518863_37);
-Obj v__3518865_37 = PRIM_CAR(v__3518864_37);
-Obj v__3517763_37 = v__3518865_37;
-Obj v__3518866_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518867_37 = PRIM_CAR(v__3518866_37);
-Obj v__3518868_37 = PRIM_CDR(v__3518867_37);
-Obj v__3518869_37 = PRIM_CDR(v__3518868_37);
-Obj v__3518870_37 = PRIM_CDR(v__3518869_37);
-Obj v__3518871_37 = PRIM_EQ(Nil, v__3518870_37);
-if (True == v__3518871_37) {
-Obj v__3518872_37 = PRIM_CDR(v__3517542_37);
-Obj v__3518873_37 = PRIM_CDR(v__3518872_37);
-Obj v__3517764_37 = v__3518873_37;
-R[1] = v__3517541_37;
-R[2] = v__3517762_37;
-R[3] = v__3517764_37;
+Obj v__3519581_37 = R[1];
+Obj v__3519582_37 = R[2];
+Obj v__3519960_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3519581_37, v__3519582_37);
+Obj v__3521035_37 = PRIM_ISCONS(v__3519582_37);
+if (True == v__3521035_37) {
+Obj v__3521036_37 = PRIM_CAR(v__3519582_37);
+Obj v__3521037_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3521036_37);
+if (True == v__3521037_37) {
+Obj v__3521038_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521039_37 = PRIM_ISCONS(v__3521038_37);
+if (True == v__3521039_37) {
+Obj v__3521040_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521041_37 = PRIM_CAR(v__3521040_37);
+Obj v__3521042_37 = PRIM_ISCONS(v__3521041_37);
+if (True == v__3521042_37) {
+Obj v__3521043_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521044_37 = PRIM_CAR(v__3521043_37);
+Obj v__3521045_37 = PRIM_CAR(v__3521044_37);
+Obj v__3521046_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3521045_37);
+if (True == v__3521046_37) {
+Obj v__3521047_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521048_37 = PRIM_CAR(v__3521047_37);
+Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
+Obj v__3521050_37 = PRIM_ISCONS(v__3521049_37);
+if (True == v__3521050_37) {
+Obj v__3521051_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521052_37 = PRIM_CAR(v__3521051_37);
+Obj v__3521053_37 = PRIM_CDR(v__3521052_37);
+Obj v__3521054_37 = PRIM_CAR(v__3521053_37);
+Obj v__3519961_37 = v__3521054_37;
+Obj v__3521055_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521056_37 = PRIM_CAR(v__3521055_37);
+Obj v__3521057_37 = PRIM_CDR(v__3521056_37);
+Obj v__3521058_37 = PRIM_CDR(v__3521057_37);
+Obj v__3521059_37 = PRIM_ISCONS(v__3521058_37);
+if (True == v__3521059_37) {
+Obj v__3521060_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521061_37 = PRIM_CAR(v__3521060_37);
+Obj v__3521062_37 = PRIM_CDR(v__3521061_37);
+Obj v__3521063_37 = PRIM_CDR(v__3521062_37);
+Obj v__3521064_37 = PRIM_CAR(v__3521063_37);
+Obj v__3519962_37 = v__3521064_37;
+Obj v__3521065_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521066_37 = PRIM_CAR(v__3521065_37);
+Obj v__3521067_37 = PRIM_CDR(v__3521066_37);
+Obj v__3521068_37 = PRIM_CDR(v__3521067_37);
+Obj v__3521069_37 = PRIM_CDR(v__3521068_37);
+Obj v__3521070_37 = PRIM_EQ(Nil, v__3521069_37);
+if (True == v__3521070_37) {
+Obj v__3521071_37 = PRIM_CDR(v__3519582_37);
+Obj v__3521072_37 = PRIM_CDR(v__3521071_37);
+Obj v__3519963_37 = v__3521072_37;
+R[1] = v__3519581_37;
+R[2] = v__3519961_37;
+R[3] = v__3519963_37;
 saveCont(co, clofun76, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3517541_37, v__3517763_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519581_37, v__3519962_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517761_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518879_37= co->res;
-Obj v__3517768_37 = R[1];
-Obj v__3517764_37 = R[2];
-Obj v__3517766_37 = R[3];
-Obj v__3518880_37 = makeCons(co->gc, v__3517768_37, v__3517764_37);
-Obj v__3518881_37 = makeCons(co->gc, v__3518879_37, v__3518880_37);
-Obj v__3518882_37 = makeCons(co->gc, v__3517766_37, v__3518881_37);
-Obj v__3518883_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518882_37);
-coraReturn(co, v__3518883_37);
+Obj v__3521078_37= co->res;
+Obj v__3519967_37 = R[1];
+Obj v__3519963_37 = R[2];
+Obj v__3519965_37 = R[3];
+Obj v__3521079_37 = makeCons(co->gc, v__3519967_37, v__3519963_37);
+Obj v__3521080_37 = makeCons(co->gc, v__3521078_37, v__3521079_37);
+Obj v__3521081_37 = makeCons(co->gc, v__3519965_37, v__3521080_37);
+Obj v__3521082_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3521081_37);
+coraReturn(co, v__3521082_37);
 return;
 }
 case 2:
 {
-Obj v__3518878_37= co->res;
-Obj v__3517762_37 = R[1];
-Obj v__3517768_37 = R[2];
-Obj v__3517764_37 = R[3];
-Obj v__3517766_37 = R[4];
-R[1] = v__3517768_37;
-R[2] = v__3517764_37;
-R[3] = v__3517766_37;
+Obj v__3521077_37= co->res;
+Obj v__3519961_37 = R[1];
+Obj v__3519967_37 = R[2];
+Obj v__3519963_37 = R[3];
+Obj v__3519965_37 = R[4];
+R[1] = v__3519967_37;
+R[2] = v__3519963_37;
+R[3] = v__3519965_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3517762_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519961_37);
 return;
 }
 case 3:
 {
-Obj v__3518877_37= co->res;
-Obj v__3517541_37 = R[1];
-Obj v__3517767_37 = R[2];
-Obj v__3517762_37 = R[3];
-Obj v__3517764_37 = R[4];
-Obj v__3517766_37 = R[5];
-Obj v__3517768_37 = v__3518877_37;
-R[1] = v__3517762_37;
-R[2] = v__3517768_37;
-R[3] = v__3517764_37;
-R[4] = v__3517766_37;
+Obj v__3521076_37= co->res;
+Obj v__3519581_37 = R[1];
+Obj v__3519966_37 = R[2];
+Obj v__3519961_37 = R[3];
+Obj v__3519963_37 = R[4];
+Obj v__3519965_37 = R[5];
+Obj v__3519967_37 = v__3521076_37;
+R[1] = v__3519961_37;
+R[2] = v__3519967_37;
+R[3] = v__3519963_37;
+R[4] = v__3519965_37;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3517541_37, v__3517767_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3519581_37, v__3519966_37);
 return;
 }
 case 4:
 {
-Obj v__3518876_37= co->res;
-Obj v__3517541_37 = R[1];
-Obj v__3517762_37 = R[2];
-Obj v__3517764_37 = R[3];
-Obj v__3517766_37 = R[4];
-Obj v__3517767_37 = v__3518876_37;
-R[1] = v__3517541_37;
-R[2] = v__3517767_37;
-R[3] = v__3517762_37;
-R[4] = v__3517764_37;
-R[5] = v__3517766_37;
+Obj v__3521075_37= co->res;
+Obj v__3519581_37 = R[1];
+Obj v__3519961_37 = R[2];
+Obj v__3519963_37 = R[3];
+Obj v__3519965_37 = R[4];
+Obj v__3519966_37 = v__3521075_37;
+R[1] = v__3519581_37;
+R[2] = v__3519966_37;
+R[3] = v__3519961_37;
+R[4] = v__3519963_37;
+R[5] = v__3519965_37;
 saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3517767_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519966_37);
 return;
 }
 case 5:
 {
-Obj v__3518875_37= co->res;
-Obj v__3517765_37 = R[1];
-Obj v__3517541_37 = R[2];
-Obj v__3517762_37 = R[3];
-Obj v__3517764_37 = R[4];
-Obj v__3517766_37 = v__3518875_37;
-R[1] = v__3517541_37;
-R[2] = v__3517762_37;
-R[3] = v__3517764_37;
-R[4] = v__3517766_37;
+Obj v__3521074_37= co->res;
+Obj v__3519964_37 = R[1];
+Obj v__3519581_37 = R[2];
+Obj v__3519961_37 = R[3];
+Obj v__3519963_37 = R[4];
+Obj v__3519965_37 = v__3521074_37;
+R[1] = v__3519581_37;
+R[2] = v__3519961_37;
+R[3] = v__3519963_37;
+R[4] = v__3519965_37;
 saveCont(co, clofun76, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3517762_37, v__3517765_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519961_37, v__3519964_37);
 return;
 }
 case 6:
 {
-Obj v__3518874_37= co->res;
-Obj v__3517541_37 = R[1];
-Obj v__3517762_37 = R[2];
-Obj v__3517764_37 = R[3];
-Obj v__3517765_37 = v__3518874_37;
-R[1] = v__3517765_37;
-R[2] = v__3517541_37;
-R[3] = v__3517762_37;
-R[4] = v__3517764_37;
+Obj v__3521073_37= co->res;
+Obj v__3519581_37 = R[1];
+Obj v__3519961_37 = R[2];
+Obj v__3519963_37 = R[3];
+Obj v__3519964_37 = v__3521073_37;
+R[1] = v__3519964_37;
+R[2] = v__3519581_37;
+R[3] = v__3519961_37;
+R[4] = v__3519963_37;
 saveCont(co, clofun76, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3517541_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519581_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4958,8 +4958,8 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518834_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3518834_37) {
+Obj v__3521033_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521033_37) {
 saveCont(co, clofun75, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4970,9 +4970,9 @@ return;
 }
 case 1:
 {
-Obj v__3518835_37= co->res;
+Obj v__3521034_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518835_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3521034_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4982,38 +4982,38 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_lam = R[1];
-R[1] = v_lam;
+Obj v__3519576_37 = R[1];
+R[1] = v__3519576_37;
 saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519576_37);
 return;
 }
 case 1:
 {
-Obj v__3518832_37= co->res;
-Obj v__3518831_37 = R[1];
+Obj v__3521031_37= co->res;
+Obj v__3521030_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun73, 2, 0), v__3518831_37, v__3518832_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun73, 2, 0), v__3521030_37, v__3521031_37);
 return;
 }
 case 2:
 {
-Obj v__3518826_37= co->res;
-Obj v_lam = R[1];
-Obj v__3517759_37 = v__3518826_37;
-Obj v__3518831_37 = PRIM_ADD(v__3517759_37, MAKE_NUMBER(1));
-R[1] = v__3518831_37;
+Obj v__3521025_37= co->res;
+Obj v__3519576_37 = R[1];
+Obj v__3519958_37 = v__3521025_37;
+Obj v__3521030_37 = PRIM_ADD(v__3519958_37, MAKE_NUMBER(1));
+R[1] = v__3521030_37;
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_lam);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519576_37);
 return;
 }
 case 3:
 {
-Obj v__3518825_37= co->res;
-Obj v_lam = R[1];
-R[1] = v_lam;
+Obj v__3521024_37= co->res;
+Obj v__3519576_37 = R[1];
+R[1] = v__3519576_37;
 saveCont(co, clofun74, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518825_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3521024_37);
 return;
 }
 }
@@ -5023,35 +5023,35 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_acc = R[1];
-Obj v_x = R[2];
-R[1] = v_acc;
+Obj v__3519578_37 = R[1];
+Obj v__3519579_37 = R[2];
+R[1] = v__3519578_37;
 saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_x);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519579_37);
 return;
 }
 case 1:
 {
-Obj v__3518828_37= co->res;
-Obj v_acc = R[1];
-Obj v__3518829_37 = PRIM_ADD(v__3518828_37, MAKE_NUMBER(1));
-Obj v__3517760_37 = v__3518829_37;
-Obj v__3518830_37 = PRIM_GT(v__3517760_37, v_acc);
-if (True == v__3518830_37) {
-coraReturn(co, v__3517760_37);
+Obj v__3521027_37= co->res;
+Obj v__3519578_37 = R[1];
+Obj v__3521028_37 = PRIM_ADD(v__3521027_37, MAKE_NUMBER(1));
+Obj v__3519959_37 = v__3521028_37;
+Obj v__3521029_37 = PRIM_GT(v__3519959_37, v__3519578_37);
+if (True == v__3521029_37) {
+coraReturn(co, v__3519959_37);
 return;
 } else {
-coraReturn(co, v_acc);
+coraReturn(co, v__3519578_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518827_37= co->res;
-Obj v_acc = R[1];
-R[1] = v_acc;
+Obj v__3521026_37= co->res;
+Obj v__3519578_37 = R[1];
+R[1] = v__3519578_37;
 saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3518827_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3521026_37);
 return;
 }
 }
@@ -5061,10 +5061,10 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_params = R[1];
-Obj v_body = R[2];
+Obj v__3519572_37 = R[1];
+Obj v__3519573_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v_body, Nil, makeNative(co->gc, 3, clofun71, 2, 1, v_params));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519573_37, Nil, makeNative(co->gc, 3, clofun71, 2, 1, v__3519572_37));
 return;
 }
 }
@@ -5074,21 +5074,21 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_body1 = R[1];
-Obj v_conts = R[2];
-R[1] = v_body1;
+Obj v__3519574_37 = R[1];
+Obj v__3519575_37 = R[2];
+R[1] = v__3519574_37;
 saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v_conts);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519575_37);
 return;
 }
 case 1:
 {
-Obj v__3518820_37= co->res;
-Obj v_body1 = R[1];
-Obj v__3518821_37 = makeCons(co->gc, v_body1, v__3518820_37);
-Obj v__3518822_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518821_37);
-Obj v__3518823_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518822_37);
-coraReturn(co, v__3518823_37);
+Obj v__3521019_37= co->res;
+Obj v__3519574_37 = R[1];
+Obj v__3521020_37 = makeCons(co->gc, v__3519574_37, v__3521019_37);
+Obj v__3521021_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521020_37);
+Obj v__3521022_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3521021_37);
+coraReturn(co, v__3521022_37);
 return;
 }
 }
@@ -5098,24 +5098,24 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517535_37 = R[1];
-Obj v__3517536_37 = R[2];
-Obj v__3517537_37 = R[3];
-Obj v__3517538_37 = R[4];
-Obj v__3518814_37 = PRIM_EQ(Nil, v__3517535_37);
-if (True == v__3518814_37) {
+Obj v__3519556_37 = R[1];
+Obj v__3519557_37 = R[2];
+Obj v__3519558_37 = R[3];
+Obj v__3519559_37 = R[4];
+Obj v__3521013_37 = PRIM_EQ(Nil, v__3519556_37);
+if (True == v__3521013_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3517538_37, v__3517537_37, v__3517536_37);
+coraCall2(co, v__3519559_37, v__3519558_37, v__3519557_37);
 return;
 } else {
-Obj v__3518815_37 = PRIM_ISCONS(v__3517535_37);
-if (True == v__3518815_37) {
-Obj v__3518816_37 = PRIM_CAR(v__3517535_37);
-Obj v__3517757_37 = v__3518816_37;
-Obj v__3518817_37 = PRIM_CDR(v__3517535_37);
-Obj v__3517758_37 = v__3518817_37;
+Obj v__3521014_37 = PRIM_ISCONS(v__3519556_37);
+if (True == v__3521014_37) {
+Obj v__3521015_37 = PRIM_CAR(v__3519556_37);
+Obj v__3519956_37 = v__3521015_37;
+Obj v__3521016_37 = PRIM_CDR(v__3519556_37);
+Obj v__3519957_37 = v__3521016_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517757_37, v__3517536_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3517758_37, v__3517537_37, v__3517538_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519956_37, v__3519557_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3519957_37, v__3519558_37, v__3519559_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5131,10 +5131,10 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_f1 = R[1];
-Obj v_conts1 = R[2];
+Obj v__3519568_37 = R[1];
+Obj v__3519569_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v_conts1, closureRef(R[0], 1), makeNative(co->gc, 3, clofun68, 2, 2, closureRef(R[0], 2), v_f1));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v__3519569_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun68, 2, 2, closureRef(R[0], 2), v__3519568_37));
 return;
 }
 }
@@ -5144,11 +5144,11 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_args1 = R[1];
-Obj v_conts2 = R[2];
-Obj v__3518818_37 = makeCons(co->gc, closureRef(R[0], 1), v_args1);
+Obj v__3519570_37 = R[1];
+Obj v__3519571_37 = R[2];
+Obj v__3521017_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519570_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518818_37, v_conts2);
+coraCall2(co, closureRef(R[0], 0), v__3521017_37, v__3519571_37);
 return;
 }
 }
@@ -5158,33 +5158,33 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517529_37 = R[1];
-Obj v__3517530_37 = R[2];
-Obj v__3517531_37 = R[3];
-Obj v__3517750_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3517529_37, v__3517530_37, v__3517531_37);
-Obj v__3518811_37 = primIsSymbol(v__3517529_37);
-if (True == v__3518811_37) {
+Obj v__3519537_37 = R[1];
+Obj v__3519538_37 = R[2];
+Obj v__3519539_37 = R[3];
+Obj v__3519949_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3519537_37, v__3519538_37, v__3519539_37);
+Obj v__3521010_37 = primIsSymbol(v__3519537_37);
+if (True == v__3521010_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517750_37, True);
+coraCall1(co, v__3519949_37, True);
 return;
 } else {
-R[1] = v__3517750_37;
+R[1] = v__3519949_37;
 saveCont(co, clofun67, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517529_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519537_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518812_37= co->res;
-Obj v__3517750_37 = R[1];
-if (True == v__3518812_37) {
+Obj v__3521011_37= co->res;
+Obj v__3519949_37 = R[1];
+if (True == v__3521011_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517750_37, True);
+coraCall1(co, v__3519949_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517750_37, False);
+coraCall1(co, v__3519949_37, False);
 return;
 }
 }
@@ -5195,63 +5195,63 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517749_37 = R[1];
-if (True == v__3517749_37) {
+Obj v__3519948_37 = R[1];
+if (True == v__3519948_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517751_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518787_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518787_37) {
-Obj v__3518788_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518789_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518788_37);
-if (True == v__3518789_37) {
-Obj v__3518790_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518791_37 = PRIM_ISCONS(v__3518790_37);
-if (True == v__3518791_37) {
-Obj v__3518792_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518793_37 = PRIM_CAR(v__3518792_37);
-Obj v__3517754_37 = v__3518793_37;
-Obj v__3518794_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518795_37 = PRIM_CDR(v__3518794_37);
-Obj v__3518796_37 = PRIM_ISCONS(v__3518795_37);
-if (True == v__3518796_37) {
-Obj v__3518797_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518798_37 = PRIM_CDR(v__3518797_37);
-Obj v__3518799_37 = PRIM_CAR(v__3518798_37);
-Obj v__3517755_37 = v__3518799_37;
-Obj v__3518800_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518801_37 = PRIM_CDR(v__3518800_37);
-Obj v__3518802_37 = PRIM_CDR(v__3518801_37);
-Obj v__3518803_37 = PRIM_EQ(Nil, v__3518802_37);
-if (True == v__3518803_37) {
+Obj v__3519950_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520986_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520986_37) {
+Obj v__3520987_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520988_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520987_37);
+if (True == v__3520988_37) {
+Obj v__3520989_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520990_37 = PRIM_ISCONS(v__3520989_37);
+if (True == v__3520990_37) {
+Obj v__3520991_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520992_37 = PRIM_CAR(v__3520991_37);
+Obj v__3519953_37 = v__3520992_37;
+Obj v__3520993_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520994_37 = PRIM_CDR(v__3520993_37);
+Obj v__3520995_37 = PRIM_ISCONS(v__3520994_37);
+if (True == v__3520995_37) {
+Obj v__3520996_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520997_37 = PRIM_CDR(v__3520996_37);
+Obj v__3520998_37 = PRIM_CAR(v__3520997_37);
+Obj v__3519954_37 = v__3520998_37;
+Obj v__3520999_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521000_37 = PRIM_CDR(v__3520999_37);
+Obj v__3521001_37 = PRIM_CDR(v__3521000_37);
+Obj v__3521002_37 = PRIM_EQ(Nil, v__3521001_37);
+if (True == v__3521002_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3517755_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3517754_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519954_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3519953_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517751_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 }
@@ -5263,40 +5263,40 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_cont1 = R[1];
-Obj v_conts1 = R[2];
-R[1] = v_cont1;
-R[2] = v_conts1;
+Obj v__3519553_37 = R[1];
+Obj v__3519554_37 = R[2];
+R[1] = v__3519553_37;
+R[2] = v__3519554_37;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v_cont1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519553_37);
 return;
 }
 case 1:
 {
-Obj v__3518805_37= co->res;
-Obj v__3517756_37 = R[1];
-Obj v_cont1 = R[2];
-Obj v_conts1 = R[3];
-Obj v__3518806_37 = PRIM_ADD(v__3518805_37, MAKE_NUMBER(1));
-Obj v__3518807_37 = makeCons(co->gc, v__3518806_37, v__3517756_37);
-Obj v__3518808_37 = makeCons(co->gc, closureRef(R[0], 1), v__3518807_37);
-Obj v__3518809_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518808_37);
-Obj v__3518810_37 = makeCons(co->gc, v_cont1, v_conts1);
+Obj v__3521004_37= co->res;
+Obj v__3519955_37 = R[1];
+Obj v__3519553_37 = R[2];
+Obj v__3519554_37 = R[3];
+Obj v__3521005_37 = PRIM_ADD(v__3521004_37, MAKE_NUMBER(1));
+Obj v__3521006_37 = makeCons(co->gc, v__3521005_37, v__3519955_37);
+Obj v__3521007_37 = makeCons(co->gc, closureRef(R[0], 1), v__3521006_37);
+Obj v__3521008_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3521007_37);
+Obj v__3521009_37 = makeCons(co->gc, v__3519553_37, v__3519554_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3518809_37, v__3518810_37);
+coraCall2(co, closureRef(R[0], 0), v__3521008_37, v__3521009_37);
 return;
 }
 case 2:
 {
-Obj v__3518804_37= co->res;
-Obj v_cont1 = R[1];
-Obj v_conts1 = R[2];
-Obj v__3517756_37 = v__3518804_37;
-R[1] = v__3517756_37;
-R[2] = v_cont1;
-R[3] = v_conts1;
+Obj v__3521003_37= co->res;
+Obj v__3519553_37 = R[1];
+Obj v__3519554_37 = R[2];
+Obj v__3519955_37 = v__3521003_37;
+R[1] = v__3519955_37;
+R[2] = v__3519553_37;
+R[3] = v__3519554_37;
 saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v_conts1);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519554_37);
 return;
 }
 }
@@ -5306,15 +5306,15 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518783_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518783_37) {
-Obj v__3518784_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517752_37 = v__3518784_37;
-Obj v__3518785_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517753_37 = v__3518785_37;
-Obj v__3518786_37 = makeCons(co->gc, v__3517752_37, v__3517753_37);
+Obj v__3520982_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520982_37) {
+Obj v__3520983_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519951_37 = v__3520983_37;
+Obj v__3520984_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519952_37 = v__3520984_37;
+Obj v__3520985_37 = makeCons(co->gc, v__3519951_37, v__3519952_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3518786_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3520985_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5329,90 +5329,90 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517521_37 = R[1];
-Obj v__3517522_37 = R[2];
-R[1] = v__3517522_37;
-R[2] = v__3517521_37;
+Obj v__3519496_37 = R[1];
+Obj v__3519497_37 = R[2];
+R[1] = v__3519497_37;
+R[2] = v__3519496_37;
 saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517522_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519497_37);
 return;
 }
 case 1:
 {
-Obj v__3518778_37= co->res;
-Obj v__3517746_37 = R[1];
-Obj v__3518779_37 = makeCons(co->gc, v__3518778_37, Nil);
-Obj v__3518780_37 = makeCons(co->gc, v__3517746_37, v__3518779_37);
-Obj v__3518781_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518780_37);
-coraReturn(co, v__3518781_37);
+Obj v__3520977_37= co->res;
+Obj v__3519945_37 = R[1];
+Obj v__3520978_37 = makeCons(co->gc, v__3520977_37, Nil);
+Obj v__3520979_37 = makeCons(co->gc, v__3519945_37, v__3520978_37);
+Obj v__3520980_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520979_37);
+coraReturn(co, v__3520980_37);
 return;
 }
 case 2:
 {
-Obj v__3518706_37= co->res;
-Obj v__3517522_37 = R[1];
-Obj v__3517521_37 = R[2];
-if (True == v__3518706_37) {
-coraReturn(co, v__3517522_37);
-return;
-} else {
-Obj v__3518707_37 = primIsSymbol(v__3517522_37);
-if (True == v__3518707_37) {
-coraReturn(co, v__3517522_37);
-return;
-} else {
-Obj v__3517735_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3517522_37, v__3517521_37);
-Obj v__3518761_37 = PRIM_ISCONS(v__3517522_37);
-if (True == v__3518761_37) {
-Obj v__3518762_37 = PRIM_CAR(v__3517522_37);
-Obj v__3518763_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518762_37);
-if (True == v__3518763_37) {
-Obj v__3518764_37 = PRIM_CDR(v__3517522_37);
-Obj v__3518765_37 = PRIM_ISCONS(v__3518764_37);
-if (True == v__3518765_37) {
-Obj v__3518766_37 = PRIM_CDR(v__3517522_37);
-Obj v__3518767_37 = PRIM_CAR(v__3518766_37);
-Obj v__3517746_37 = v__3518767_37;
-Obj v__3518768_37 = PRIM_CDR(v__3517522_37);
-Obj v__3518769_37 = PRIM_CDR(v__3518768_37);
-Obj v__3518770_37 = PRIM_ISCONS(v__3518769_37);
-if (True == v__3518770_37) {
-Obj v__3518771_37 = PRIM_CDR(v__3517522_37);
-Obj v__3518772_37 = PRIM_CDR(v__3518771_37);
-Obj v__3518773_37 = PRIM_CAR(v__3518772_37);
-Obj v__3517747_37 = v__3518773_37;
-Obj v__3518774_37 = PRIM_CDR(v__3517522_37);
-Obj v__3518775_37 = PRIM_CDR(v__3518774_37);
-Obj v__3518776_37 = PRIM_CDR(v__3518775_37);
-Obj v__3518777_37 = PRIM_EQ(Nil, v__3518776_37);
-if (True == v__3518777_37) {
-R[1] = v__3517746_37;
+Obj v__3520905_37= co->res;
+Obj v__3519497_37 = R[1];
+Obj v__3519496_37 = R[2];
+if (True == v__3520905_37) {
+coraReturn(co, v__3519497_37);
+return;
+} else {
+Obj v__3520906_37 = primIsSymbol(v__3519497_37);
+if (True == v__3520906_37) {
+coraReturn(co, v__3519497_37);
+return;
+} else {
+Obj v__3519934_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3519497_37, v__3519496_37);
+Obj v__3520960_37 = PRIM_ISCONS(v__3519497_37);
+if (True == v__3520960_37) {
+Obj v__3520961_37 = PRIM_CAR(v__3519497_37);
+Obj v__3520962_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520961_37);
+if (True == v__3520962_37) {
+Obj v__3520963_37 = PRIM_CDR(v__3519497_37);
+Obj v__3520964_37 = PRIM_ISCONS(v__3520963_37);
+if (True == v__3520964_37) {
+Obj v__3520965_37 = PRIM_CDR(v__3519497_37);
+Obj v__3520966_37 = PRIM_CAR(v__3520965_37);
+Obj v__3519945_37 = v__3520966_37;
+Obj v__3520967_37 = PRIM_CDR(v__3519497_37);
+Obj v__3520968_37 = PRIM_CDR(v__3520967_37);
+Obj v__3520969_37 = PRIM_ISCONS(v__3520968_37);
+if (True == v__3520969_37) {
+Obj v__3520970_37 = PRIM_CDR(v__3519497_37);
+Obj v__3520971_37 = PRIM_CDR(v__3520970_37);
+Obj v__3520972_37 = PRIM_CAR(v__3520971_37);
+Obj v__3519946_37 = v__3520972_37;
+Obj v__3520973_37 = PRIM_CDR(v__3519497_37);
+Obj v__3520974_37 = PRIM_CDR(v__3520973_37);
+Obj v__3520975_37 = PRIM_CDR(v__3520974_37);
+Obj v__3520976_37 = PRIM_EQ(Nil, v__3520975_37);
+if (True == v__3520976_37) {
+R[1] = v__3519945_37;
 saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517521_37, v__3517747_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519496_37, v__3519946_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517735_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517735_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517735_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517735_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517735_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 }
@@ -5425,121 +5425,121 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517736_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518736_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518736_37) {
-Obj v__3518737_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518738_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518737_37);
-if (True == v__3518738_37) {
-Obj v__3518739_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518740_37 = PRIM_ISCONS(v__3518739_37);
-if (True == v__3518740_37) {
-Obj v__3518741_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518742_37 = PRIM_CAR(v__3518741_37);
-Obj v__3517742_37 = v__3518742_37;
-Obj v__3518743_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518744_37 = PRIM_CDR(v__3518743_37);
-Obj v__3518745_37 = PRIM_ISCONS(v__3518744_37);
-if (True == v__3518745_37) {
-Obj v__3518746_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518747_37 = PRIM_CDR(v__3518746_37);
-Obj v__3518748_37 = PRIM_CAR(v__3518747_37);
-Obj v__3517743_37 = v__3518748_37;
-Obj v__3518749_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518750_37 = PRIM_CDR(v__3518749_37);
-Obj v__3518751_37 = PRIM_CDR(v__3518750_37);
-Obj v__3518752_37 = PRIM_EQ(Nil, v__3518751_37);
-if (True == v__3518752_37) {
-R[1] = v__3517743_37;
-R[2] = v__3517742_37;
+Obj v__3519935_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520935_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520935_37) {
+Obj v__3520936_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520937_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520936_37);
+if (True == v__3520937_37) {
+Obj v__3520938_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520939_37 = PRIM_ISCONS(v__3520938_37);
+if (True == v__3520939_37) {
+Obj v__3520940_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520941_37 = PRIM_CAR(v__3520940_37);
+Obj v__3519941_37 = v__3520941_37;
+Obj v__3520942_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520943_37 = PRIM_CDR(v__3520942_37);
+Obj v__3520944_37 = PRIM_ISCONS(v__3520943_37);
+if (True == v__3520944_37) {
+Obj v__3520945_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520946_37 = PRIM_CDR(v__3520945_37);
+Obj v__3520947_37 = PRIM_CAR(v__3520946_37);
+Obj v__3519942_37 = v__3520947_37;
+Obj v__3520948_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520949_37 = PRIM_CDR(v__3520948_37);
+Obj v__3520950_37 = PRIM_CDR(v__3520949_37);
+Obj v__3520951_37 = PRIM_EQ(Nil, v__3520950_37);
+if (True == v__3520951_37) {
+R[1] = v__3519942_37;
+R[2] = v__3519941_37;
 saveCont(co, clofun62, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517743_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519942_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517736_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517736_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517736_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517736_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517736_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518757_37= co->res;
-Obj v__3517745_37 = R[1];
-Obj v__3517742_37 = R[2];
-Obj v__3518758_37 = makeCons(co->gc, v__3518757_37, v__3517745_37);
-Obj v__3518759_37 = makeCons(co->gc, v__3517742_37, v__3518758_37);
-Obj v__3518760_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3518759_37);
-coraReturn(co, v__3518760_37);
+Obj v__3520956_37= co->res;
+Obj v__3519944_37 = R[1];
+Obj v__3519941_37 = R[2];
+Obj v__3520957_37 = makeCons(co->gc, v__3520956_37, v__3519944_37);
+Obj v__3520958_37 = makeCons(co->gc, v__3519941_37, v__3520957_37);
+Obj v__3520959_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3520958_37);
+coraReturn(co, v__3520959_37);
 return;
 }
 case 2:
 {
-Obj v__3518756_37= co->res;
-Obj v__3517744_37 = R[1];
-Obj v__3517743_37 = R[2];
-Obj v__3517742_37 = R[3];
-Obj v__3517745_37 = v__3518756_37;
-R[1] = v__3517745_37;
-R[2] = v__3517742_37;
+Obj v__3520955_37= co->res;
+Obj v__3519943_37 = R[1];
+Obj v__3519942_37 = R[2];
+Obj v__3519941_37 = R[3];
+Obj v__3519944_37 = v__3520955_37;
+R[1] = v__3519944_37;
+R[2] = v__3519941_37;
 saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3517744_37, v__3517743_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519943_37, v__3519942_37);
 return;
 }
 case 3:
 {
-Obj v__3518755_37= co->res;
-Obj v__3517744_37 = R[1];
-Obj v__3517743_37 = R[2];
-Obj v__3517742_37 = R[3];
-R[1] = v__3517744_37;
-R[2] = v__3517743_37;
-R[3] = v__3517742_37;
+Obj v__3520954_37= co->res;
+Obj v__3519943_37 = R[1];
+Obj v__3519942_37 = R[2];
+Obj v__3519941_37 = R[3];
+R[1] = v__3519943_37;
+R[2] = v__3519942_37;
+R[3] = v__3519941_37;
 saveCont(co, clofun62, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518755_37, v__3517744_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520954_37, v__3519943_37);
 return;
 }
 case 4:
 {
-Obj v__3518754_37= co->res;
-Obj v__3517743_37 = R[1];
-Obj v__3517742_37 = R[2];
-Obj v__3517744_37 = v__3518754_37;
-R[1] = v__3517744_37;
-R[2] = v__3517743_37;
-R[3] = v__3517742_37;
+Obj v__3520953_37= co->res;
+Obj v__3519942_37 = R[1];
+Obj v__3519941_37 = R[2];
+Obj v__3519943_37 = v__3520953_37;
+R[1] = v__3519943_37;
+R[2] = v__3519942_37;
+R[3] = v__3519941_37;
 saveCont(co, clofun62, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3518753_37= co->res;
-Obj v__3517743_37 = R[1];
-Obj v__3517742_37 = R[2];
-R[1] = v__3517743_37;
-R[2] = v__3517742_37;
+Obj v__3520952_37= co->res;
+Obj v__3519942_37 = R[1];
+Obj v__3519941_37 = R[2];
+R[1] = v__3519942_37;
+R[2] = v__3519941_37;
 saveCont(co, clofun62, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518753_37, v__3517742_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520952_37, v__3519941_37);
 return;
 }
 }
@@ -5549,89 +5549,89 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517737_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518713_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518713_37) {
-Obj v__3518714_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518715_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518714_37);
-if (True == v__3518715_37) {
-Obj v__3518716_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518717_37 = PRIM_ISCONS(v__3518716_37);
-if (True == v__3518717_37) {
-Obj v__3518718_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518719_37 = PRIM_CAR(v__3518718_37);
-Obj v__3517740_37 = v__3518719_37;
-Obj v__3518720_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518721_37 = PRIM_CDR(v__3518720_37);
-Obj v__3518722_37 = PRIM_ISCONS(v__3518721_37);
-if (True == v__3518722_37) {
-Obj v__3518723_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518724_37 = PRIM_CDR(v__3518723_37);
-Obj v__3518725_37 = PRIM_CAR(v__3518724_37);
-Obj v__3517741_37 = v__3518725_37;
-Obj v__3518726_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518727_37 = PRIM_CDR(v__3518726_37);
-Obj v__3518728_37 = PRIM_CDR(v__3518727_37);
-Obj v__3518729_37 = PRIM_EQ(Nil, v__3518728_37);
-if (True == v__3518729_37) {
-R[1] = v__3517740_37;
-R[2] = v__3517741_37;
+Obj v__3519936_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520912_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520912_37) {
+Obj v__3520913_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520914_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520913_37);
+if (True == v__3520914_37) {
+Obj v__3520915_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520916_37 = PRIM_ISCONS(v__3520915_37);
+if (True == v__3520916_37) {
+Obj v__3520917_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520918_37 = PRIM_CAR(v__3520917_37);
+Obj v__3519939_37 = v__3520918_37;
+Obj v__3520919_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520920_37 = PRIM_CDR(v__3520919_37);
+Obj v__3520921_37 = PRIM_ISCONS(v__3520920_37);
+if (True == v__3520921_37) {
+Obj v__3520922_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520923_37 = PRIM_CDR(v__3520922_37);
+Obj v__3520924_37 = PRIM_CAR(v__3520923_37);
+Obj v__3519940_37 = v__3520924_37;
+Obj v__3520925_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520926_37 = PRIM_CDR(v__3520925_37);
+Obj v__3520927_37 = PRIM_CDR(v__3520926_37);
+Obj v__3520928_37 = PRIM_EQ(Nil, v__3520927_37);
+if (True == v__3520928_37) {
+R[1] = v__3519939_37;
+R[2] = v__3519940_37;
 saveCont(co, clofun61, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517737_37);
+coraCall0(co, v__3519936_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517737_37);
+coraCall0(co, v__3519936_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517737_37);
+coraCall0(co, v__3519936_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517737_37);
+coraCall0(co, v__3519936_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517737_37);
+coraCall0(co, v__3519936_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518732_37= co->res;
-Obj v__3518731_37 = R[1];
-Obj v__3518733_37 = makeCons(co->gc, v__3518732_37, Nil);
-Obj v__3518734_37 = makeCons(co->gc, v__3518731_37, v__3518733_37);
-Obj v__3518735_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518734_37);
-coraReturn(co, v__3518735_37);
+Obj v__3520931_37= co->res;
+Obj v__3520930_37 = R[1];
+Obj v__3520932_37 = makeCons(co->gc, v__3520931_37, Nil);
+Obj v__3520933_37 = makeCons(co->gc, v__3520930_37, v__3520932_37);
+Obj v__3520934_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3520933_37);
+coraReturn(co, v__3520934_37);
 return;
 }
 case 2:
 {
-Obj v__3518731_37= co->res;
-Obj v__3517741_37 = R[1];
-R[1] = v__3518731_37;
+Obj v__3520930_37= co->res;
+Obj v__3519940_37 = R[1];
+R[1] = v__3520930_37;
 saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3517741_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3519940_37);
 return;
 }
 case 3:
 {
-Obj v__3518730_37= co->res;
-Obj v__3517740_37 = R[1];
-Obj v__3517741_37 = R[2];
-R[1] = v__3517741_37;
+Obj v__3520929_37= co->res;
+Obj v__3519939_37 = R[1];
+Obj v__3519940_37 = R[2];
+R[1] = v__3519940_37;
 saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518730_37, v__3517740_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520929_37, v__3519939_37);
 return;
 }
 }
@@ -5641,14 +5641,14 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518708_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518708_37) {
-Obj v__3518709_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517738_37 = v__3518709_37;
-Obj v__3518710_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517739_37 = v__3518710_37;
-R[1] = v__3517738_37;
-R[2] = v__3517739_37;
+Obj v__3520907_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520907_37) {
+Obj v__3520908_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519937_37 = v__3520908_37;
+Obj v__3520909_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519938_37 = v__3520909_37;
+R[1] = v__3519937_37;
+R[2] = v__3519938_37;
 saveCont(co, clofun60, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
@@ -5660,12 +5660,12 @@ return;
 }
 case 1:
 {
-Obj v__3518711_37= co->res;
-Obj v__3517738_37 = R[1];
-Obj v__3517739_37 = R[2];
-Obj v__3518712_37 = makeCons(co->gc, v__3517738_37, v__3517739_37);
+Obj v__3520910_37= co->res;
+Obj v__3519937_37 = R[1];
+Obj v__3519938_37 = R[2];
+Obj v__3520911_37 = makeCons(co->gc, v__3519937_37, v__3519938_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518711_37, v__3518712_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520910_37, v__3520911_37);
 return;
 }
 }
@@ -5675,24 +5675,24 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517516_37 = R[1];
-Obj v__3517517_37 = R[2];
-Obj v__3517518_37 = R[3];
-Obj v__3518683_37 = PRIM_EQ(Nil, v__3517516_37);
-if (True == v__3518683_37) {
-R[1] = v__3517518_37;
+Obj v__3519485_37 = R[1];
+Obj v__3519486_37 = R[2];
+Obj v__3519487_37 = R[3];
+Obj v__3520882_37 = PRIM_EQ(Nil, v__3519485_37);
+if (True == v__3520882_37) {
+R[1] = v__3519487_37;
 saveCont(co, clofun59, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3517517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519486_37);
 return;
 } else {
-Obj v__3518701_37 = PRIM_ISCONS(v__3517516_37);
-if (True == v__3518701_37) {
-Obj v__3518702_37 = PRIM_CAR(v__3517516_37);
-Obj v__3517733_37 = v__3518702_37;
-Obj v__3518703_37 = PRIM_CDR(v__3517516_37);
-Obj v__3517734_37 = v__3518703_37;
+Obj v__3520900_37 = PRIM_ISCONS(v__3519485_37);
+if (True == v__3520900_37) {
+Obj v__3520901_37 = PRIM_CAR(v__3519485_37);
+Obj v__3519932_37 = v__3520901_37;
+Obj v__3520902_37 = PRIM_CDR(v__3519485_37);
+Obj v__3519933_37 = v__3520902_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517733_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3517734_37, v__3517517_37, v__3517518_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519932_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3519933_37, v__3519486_37, v__3519487_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5703,46 +5703,46 @@ return;
 }
 case 1:
 {
-Obj v__3518699_37= co->res;
-Obj v__3517731_37 = R[1];
-Obj v__3518700_37 = PRIM_EQ(v__3518699_37, getBinding(co, packageID, 91).name);
-if (True == v__3518700_37) {
+Obj v__3520898_37= co->res;
+Obj v__3519930_37 = R[1];
+Obj v__3520899_37 = PRIM_EQ(v__3520898_37, getBinding(co, packageID, 91).name);
+if (True == v__3520899_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517731_37, True);
+coraCall1(co, v__3519930_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517731_37, False);
+coraCall1(co, v__3519930_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518698_37= co->res;
-Obj v__3517728_37 = R[1];
-Obj v__3517731_37 = R[2];
-if (True == v__3518698_37) {
-R[1] = v__3517731_37;
+Obj v__3520897_37= co->res;
+Obj v__3519927_37 = R[1];
+Obj v__3519930_37 = R[2];
+if (True == v__3520897_37) {
+R[1] = v__3519930_37;
 saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3517728_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519927_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517731_37, False);
+coraCall1(co, v__3519930_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3518684_37= co->res;
-Obj v__3517518_37 = R[1];
-Obj v__3517728_37 = v__3518684_37;
-Obj v__3517731_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3517728_37, v__3517518_37);
-Obj v__3518697_37 = PRIM_CAR(v__3517728_37);
-R[1] = v__3517728_37;
-R[2] = v__3517731_37;
+Obj v__3520883_37= co->res;
+Obj v__3519487_37 = R[1];
+Obj v__3519927_37 = v__3520883_37;
+Obj v__3519930_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3519927_37, v__3519487_37);
+Obj v__3520896_37 = PRIM_CAR(v__3519927_37);
+R[1] = v__3519927_37;
+R[2] = v__3519930_37;
 saveCont(co, clofun59, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3518697_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520896_37);
 return;
 }
 }
@@ -5752,10 +5752,10 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_hd1 = R[1];
-Obj v__3518704_37 = makeCons(co->gc, v_hd1, closureRef(R[0], 1));
+Obj v__3519495_37 = R[1];
+Obj v__3520903_37 = makeCons(co->gc, v__3519495_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3518704_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3520903_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5765,40 +5765,40 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517730_37 = R[1];
-if (True == v__3517730_37) {
+Obj v__3519929_37 = R[1];
+if (True == v__3519929_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3518685_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == v__3518685_37) {
-Obj v__3518686_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3518687_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3518686_37);
-coraReturn(co, v__3518687_37);
+Obj v__3520884_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
+if (True == v__3520884_37) {
+Obj v__3520885_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520886_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3520885_37);
+coraReturn(co, v__3520886_37);
 return;
 } else {
-Obj v__3518688_37 = primGenSym(co);
-Obj v__3517732_37 = v__3518688_37;
-Obj v__3518689_37 = makeCons(co->gc, v__3517732_37, Nil);
-R[1] = v__3518689_37;
+Obj v__3520887_37 = primGenSym(co);
+Obj v__3519931_37 = v__3520887_37;
+Obj v__3520888_37 = makeCons(co->gc, v__3519931_37, Nil);
+R[1] = v__3520888_37;
 saveCont(co, clofun57, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3517732_37);
+coraCall1(co, closureRef(R[0], 1), v__3519931_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518690_37= co->res;
-Obj v__3518689_37 = R[1];
-Obj v__3518691_37 = makeCons(co->gc, v__3518690_37, Nil);
-Obj v__3518692_37 = makeCons(co->gc, v__3518689_37, v__3518691_37);
-Obj v__3518693_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3518692_37);
-Obj v__3518694_37 = makeCons(co->gc, v__3518693_37, Nil);
-Obj v__3518695_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518694_37);
-Obj v__3518696_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3518695_37);
-coraReturn(co, v__3518696_37);
+Obj v__3520889_37= co->res;
+Obj v__3520888_37 = R[1];
+Obj v__3520890_37 = makeCons(co->gc, v__3520889_37, Nil);
+Obj v__3520891_37 = makeCons(co->gc, v__3520888_37, v__3520890_37);
+Obj v__3520892_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520891_37);
+Obj v__3520893_37 = makeCons(co->gc, v__3520892_37, Nil);
+Obj v__3520894_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520893_37);
+Obj v__3520895_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3520894_37);
+coraReturn(co, v__3520895_37);
 return;
 }
 }
@@ -5808,32 +5808,32 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517507_37 = R[1];
-Obj v__3517508_37 = R[2];
-Obj v__3517710_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3517507_37, v__3517508_37);
-Obj v__3518680_37 = primIsSymbol(v__3517507_37);
-if (True == v__3518680_37) {
+Obj v__3519423_37 = R[1];
+Obj v__3519424_37 = R[2];
+Obj v__3519909_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3519423_37, v__3519424_37);
+Obj v__3520879_37 = primIsSymbol(v__3519423_37);
+if (True == v__3520879_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517710_37, True);
+coraCall1(co, v__3519909_37, True);
 return;
 } else {
-R[1] = v__3517710_37;
+R[1] = v__3519909_37;
 saveCont(co, clofun56, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517507_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519423_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518681_37= co->res;
-Obj v__3517710_37 = R[1];
-if (True == v__3518681_37) {
+Obj v__3520880_37= co->res;
+Obj v__3519909_37 = R[1];
+if (True == v__3520880_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517710_37, True);
+coraCall1(co, v__3519909_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517710_37, False);
+coraCall1(co, v__3519909_37, False);
 return;
 }
 }
@@ -5844,8 +5844,8 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517709_37 = R[1];
-if (True == v__3517709_37) {
+Obj v__3519908_37 = R[1];
+if (True == v__3519908_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5857,78 +5857,78 @@ return;
 }
 case 1:
 {
-Obj v__3518546_37= co->res;
-if (True == v__3518546_37) {
+Obj v__3520745_37= co->res;
+if (True == v__3520745_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3517711_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518648_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518648_37) {
-Obj v__3518649_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518650_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518649_37);
-if (True == v__3518650_37) {
-Obj v__3518651_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518652_37 = PRIM_ISCONS(v__3518651_37);
-if (True == v__3518652_37) {
-Obj v__3518653_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518654_37 = PRIM_CAR(v__3518653_37);
-Obj v__3517725_37 = v__3518654_37;
-Obj v__3518655_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518656_37 = PRIM_CDR(v__3518655_37);
-Obj v__3518657_37 = PRIM_ISCONS(v__3518656_37);
-if (True == v__3518657_37) {
-Obj v__3518658_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518659_37 = PRIM_CDR(v__3518658_37);
-Obj v__3518660_37 = PRIM_CAR(v__3518659_37);
-Obj v__3517726_37 = v__3518660_37;
-Obj v__3518661_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518662_37 = PRIM_CDR(v__3518661_37);
-Obj v__3518663_37 = PRIM_CDR(v__3518662_37);
-Obj v__3518664_37 = PRIM_ISCONS(v__3518663_37);
-if (True == v__3518664_37) {
-Obj v__3518665_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518666_37 = PRIM_CDR(v__3518665_37);
-Obj v__3518667_37 = PRIM_CDR(v__3518666_37);
-Obj v__3518668_37 = PRIM_CAR(v__3518667_37);
-Obj v__3517727_37 = v__3518668_37;
-Obj v__3518669_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518670_37 = PRIM_CDR(v__3518669_37);
-Obj v__3518671_37 = PRIM_CDR(v__3518670_37);
-Obj v__3518672_37 = PRIM_CDR(v__3518671_37);
-Obj v__3518673_37 = PRIM_EQ(Nil, v__3518672_37);
-if (True == v__3518673_37) {
+Obj v__3519910_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520847_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520847_37) {
+Obj v__3520848_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520849_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520848_37);
+if (True == v__3520849_37) {
+Obj v__3520850_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520851_37 = PRIM_ISCONS(v__3520850_37);
+if (True == v__3520851_37) {
+Obj v__3520852_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520853_37 = PRIM_CAR(v__3520852_37);
+Obj v__3519924_37 = v__3520853_37;
+Obj v__3520854_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520855_37 = PRIM_CDR(v__3520854_37);
+Obj v__3520856_37 = PRIM_ISCONS(v__3520855_37);
+if (True == v__3520856_37) {
+Obj v__3520857_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520858_37 = PRIM_CDR(v__3520857_37);
+Obj v__3520859_37 = PRIM_CAR(v__3520858_37);
+Obj v__3519925_37 = v__3520859_37;
+Obj v__3520860_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520861_37 = PRIM_CDR(v__3520860_37);
+Obj v__3520862_37 = PRIM_CDR(v__3520861_37);
+Obj v__3520863_37 = PRIM_ISCONS(v__3520862_37);
+if (True == v__3520863_37) {
+Obj v__3520864_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520865_37 = PRIM_CDR(v__3520864_37);
+Obj v__3520866_37 = PRIM_CDR(v__3520865_37);
+Obj v__3520867_37 = PRIM_CAR(v__3520866_37);
+Obj v__3519926_37 = v__3520867_37;
+Obj v__3520868_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520869_37 = PRIM_CDR(v__3520868_37);
+Obj v__3520870_37 = PRIM_CDR(v__3520869_37);
+Obj v__3520871_37 = PRIM_CDR(v__3520870_37);
+Obj v__3520872_37 = PRIM_EQ(Nil, v__3520871_37);
+if (True == v__3520872_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517725_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3517726_37, v__3517727_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519924_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3519925_37, v__3519926_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3519910_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3519910_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3519910_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3519910_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3519910_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517711_37);
+coraCall0(co, v__3519910_37);
 return;
 }
 }
@@ -5940,30 +5940,30 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_ra = R[1];
-R[1] = v_ra;
+Obj v__3519484_37 = R[1];
+R[1] = v__3519484_37;
 saveCont(co, clofun54, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518675_37= co->res;
-Obj v__3518674_37 = R[1];
-Obj v_ra = R[2];
-Obj v__3518676_37 = makeCons(co->gc, v__3518675_37, Nil);
-Obj v__3518677_37 = makeCons(co->gc, v__3518674_37, v__3518676_37);
-Obj v__3518678_37 = makeCons(co->gc, v_ra, v__3518677_37);
-Obj v__3518679_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518678_37);
-coraReturn(co, v__3518679_37);
+Obj v__3520874_37= co->res;
+Obj v__3520873_37 = R[1];
+Obj v__3519484_37 = R[2];
+Obj v__3520875_37 = makeCons(co->gc, v__3520874_37, Nil);
+Obj v__3520876_37 = makeCons(co->gc, v__3520873_37, v__3520875_37);
+Obj v__3520877_37 = makeCons(co->gc, v__3519484_37, v__3520876_37);
+Obj v__3520878_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520877_37);
+coraReturn(co, v__3520878_37);
 return;
 }
 case 2:
 {
-Obj v__3518674_37= co->res;
-Obj v_ra = R[1];
-R[1] = v__3518674_37;
-R[2] = v_ra;
+Obj v__3520873_37= co->res;
+Obj v__3519484_37 = R[1];
+R[1] = v__3520873_37;
+R[2] = v__3519484_37;
 saveCont(co, clofun54, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
@@ -5975,57 +5975,57 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517712_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518626_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518626_37) {
-Obj v__3518627_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518628_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518627_37);
-if (True == v__3518628_37) {
-Obj v__3518629_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518630_37 = PRIM_ISCONS(v__3518629_37);
-if (True == v__3518630_37) {
-Obj v__3518631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518632_37 = PRIM_CAR(v__3518631_37);
-Obj v__3517723_37 = v__3518632_37;
-Obj v__3518633_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518634_37 = PRIM_CDR(v__3518633_37);
-Obj v__3518635_37 = PRIM_ISCONS(v__3518634_37);
-if (True == v__3518635_37) {
-Obj v__3518636_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518637_37 = PRIM_CDR(v__3518636_37);
-Obj v__3518638_37 = PRIM_CAR(v__3518637_37);
-Obj v__3517724_37 = v__3518638_37;
-Obj v__3518639_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518640_37 = PRIM_CDR(v__3518639_37);
-Obj v__3518641_37 = PRIM_CDR(v__3518640_37);
-Obj v__3518642_37 = PRIM_EQ(Nil, v__3518641_37);
-if (True == v__3518642_37) {
+Obj v__3519911_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520825_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520825_37) {
+Obj v__3520826_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520827_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520826_37);
+if (True == v__3520827_37) {
+Obj v__3520828_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520829_37 = PRIM_ISCONS(v__3520828_37);
+if (True == v__3520829_37) {
+Obj v__3520830_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520831_37 = PRIM_CAR(v__3520830_37);
+Obj v__3519922_37 = v__3520831_37;
+Obj v__3520832_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520833_37 = PRIM_CDR(v__3520832_37);
+Obj v__3520834_37 = PRIM_ISCONS(v__3520833_37);
+if (True == v__3520834_37) {
+Obj v__3520835_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520836_37 = PRIM_CDR(v__3520835_37);
+Obj v__3520837_37 = PRIM_CAR(v__3520836_37);
+Obj v__3519923_37 = v__3520837_37;
+Obj v__3520838_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520839_37 = PRIM_CDR(v__3520838_37);
+Obj v__3520840_37 = PRIM_CDR(v__3520839_37);
+Obj v__3520841_37 = PRIM_EQ(Nil, v__3520840_37);
+if (True == v__3520841_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517723_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3517724_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519922_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3519923_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517712_37);
+coraCall0(co, v__3519911_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517712_37);
+coraCall0(co, v__3519911_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517712_37);
+coraCall0(co, v__3519911_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517712_37);
+coraCall0(co, v__3519911_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517712_37);
+coraCall0(co, v__3519911_37);
 return;
 }
 }
@@ -6036,14 +6036,14 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_ra = R[1];
-Obj v__3518643_37 = primIsSymbol(v_ra);
-if (True == v__3518643_37) {
+Obj v__3519479_37 = R[1];
+Obj v__3520842_37 = primIsSymbol(v__3519479_37);
+if (True == v__3520842_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = v_ra;
+R[1] = v__3519479_37;
 saveCont(co, clofun52, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6051,12 +6051,12 @@ return;
 }
 case 1:
 {
-Obj v__3518644_37= co->res;
-Obj v_ra = R[1];
-Obj v__3518645_37 = makeCons(co->gc, v__3518644_37, Nil);
-Obj v__3518646_37 = makeCons(co->gc, v_ra, v__3518645_37);
-Obj v__3518647_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518646_37);
-coraReturn(co, v__3518647_37);
+Obj v__3520843_37= co->res;
+Obj v__3519479_37 = R[1];
+Obj v__3520844_37 = makeCons(co->gc, v__3520843_37, Nil);
+Obj v__3520845_37 = makeCons(co->gc, v__3519479_37, v__3520844_37);
+Obj v__3520846_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520845_37);
+coraReturn(co, v__3520846_37);
 return;
 }
 }
@@ -6066,73 +6066,73 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517713_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518595_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518595_37) {
-Obj v__3518596_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518597_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518596_37);
-if (True == v__3518597_37) {
-Obj v__3518598_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518599_37 = PRIM_ISCONS(v__3518598_37);
-if (True == v__3518599_37) {
-Obj v__3518600_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518601_37 = PRIM_CAR(v__3518600_37);
-Obj v__3517720_37 = v__3518601_37;
-Obj v__3518602_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518603_37 = PRIM_CDR(v__3518602_37);
-Obj v__3518604_37 = PRIM_ISCONS(v__3518603_37);
-if (True == v__3518604_37) {
-Obj v__3518605_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518606_37 = PRIM_CDR(v__3518605_37);
-Obj v__3518607_37 = PRIM_CAR(v__3518606_37);
-Obj v__3517721_37 = v__3518607_37;
-Obj v__3518608_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518609_37 = PRIM_CDR(v__3518608_37);
-Obj v__3518610_37 = PRIM_CDR(v__3518609_37);
-Obj v__3518611_37 = PRIM_ISCONS(v__3518610_37);
-if (True == v__3518611_37) {
-Obj v__3518612_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518613_37 = PRIM_CDR(v__3518612_37);
-Obj v__3518614_37 = PRIM_CDR(v__3518613_37);
-Obj v__3518615_37 = PRIM_CAR(v__3518614_37);
-Obj v__3517722_37 = v__3518615_37;
-Obj v__3518616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518617_37 = PRIM_CDR(v__3518616_37);
-Obj v__3518618_37 = PRIM_CDR(v__3518617_37);
-Obj v__3518619_37 = PRIM_CDR(v__3518618_37);
-Obj v__3518620_37 = PRIM_EQ(Nil, v__3518619_37);
-if (True == v__3518620_37) {
+Obj v__3519912_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520794_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520794_37) {
+Obj v__3520795_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520796_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520795_37);
+if (True == v__3520796_37) {
+Obj v__3520797_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520798_37 = PRIM_ISCONS(v__3520797_37);
+if (True == v__3520798_37) {
+Obj v__3520799_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520800_37 = PRIM_CAR(v__3520799_37);
+Obj v__3519919_37 = v__3520800_37;
+Obj v__3520801_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520802_37 = PRIM_CDR(v__3520801_37);
+Obj v__3520803_37 = PRIM_ISCONS(v__3520802_37);
+if (True == v__3520803_37) {
+Obj v__3520804_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520805_37 = PRIM_CDR(v__3520804_37);
+Obj v__3520806_37 = PRIM_CAR(v__3520805_37);
+Obj v__3519920_37 = v__3520806_37;
+Obj v__3520807_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520808_37 = PRIM_CDR(v__3520807_37);
+Obj v__3520809_37 = PRIM_CDR(v__3520808_37);
+Obj v__3520810_37 = PRIM_ISCONS(v__3520809_37);
+if (True == v__3520810_37) {
+Obj v__3520811_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520812_37 = PRIM_CDR(v__3520811_37);
+Obj v__3520813_37 = PRIM_CDR(v__3520812_37);
+Obj v__3520814_37 = PRIM_CAR(v__3520813_37);
+Obj v__3519921_37 = v__3520814_37;
+Obj v__3520815_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520816_37 = PRIM_CDR(v__3520815_37);
+Obj v__3520817_37 = PRIM_CDR(v__3520816_37);
+Obj v__3520818_37 = PRIM_CDR(v__3520817_37);
+Obj v__3520819_37 = PRIM_EQ(Nil, v__3520818_37);
+if (True == v__3520819_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517721_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3517720_37, v__3517722_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519920_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3519919_37, v__3519921_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517713_37);
+coraCall0(co, v__3519912_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517713_37);
+coraCall0(co, v__3519912_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517713_37);
+coraCall0(co, v__3519912_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517713_37);
+coraCall0(co, v__3519912_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517713_37);
+coraCall0(co, v__3519912_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517713_37);
+coraCall0(co, v__3519912_37);
 return;
 }
 }
@@ -6143,21 +6143,21 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_rb = R[1];
-R[1] = v_rb;
+Obj v__3519475_37 = R[1];
+R[1] = v__3519475_37;
 saveCont(co, clofun50, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3518621_37= co->res;
-Obj v_rb = R[1];
-Obj v__3518622_37 = makeCons(co->gc, v__3518621_37, Nil);
-Obj v__3518623_37 = makeCons(co->gc, v_rb, v__3518622_37);
-Obj v__3518624_37 = makeCons(co->gc, closureRef(R[0], 0), v__3518623_37);
-Obj v__3518625_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518624_37);
-coraReturn(co, v__3518625_37);
+Obj v__3520820_37= co->res;
+Obj v__3519475_37 = R[1];
+Obj v__3520821_37 = makeCons(co->gc, v__3520820_37, Nil);
+Obj v__3520822_37 = makeCons(co->gc, v__3519475_37, v__3520821_37);
+Obj v__3520823_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520822_37);
+Obj v__3520824_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520823_37);
+coraReturn(co, v__3520824_37);
 return;
 }
 }
@@ -6167,114 +6167,114 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517714_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518551_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518551_37) {
-Obj v__3518552_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518553_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518552_37);
-if (True == v__3518553_37) {
-Obj v__3518554_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518555_37 = PRIM_ISCONS(v__3518554_37);
-if (True == v__3518555_37) {
-Obj v__3518556_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518557_37 = PRIM_CAR(v__3518556_37);
-Obj v__3518558_37 = PRIM_ISCONS(v__3518557_37);
-if (True == v__3518558_37) {
-Obj v__3518559_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518560_37 = PRIM_CAR(v__3518559_37);
-Obj v__3518561_37 = PRIM_CAR(v__3518560_37);
-Obj v__3518562_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518561_37);
-if (True == v__3518562_37) {
-Obj v__3518563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518564_37 = PRIM_CAR(v__3518563_37);
-Obj v__3518565_37 = PRIM_CDR(v__3518564_37);
-Obj v__3518566_37 = PRIM_ISCONS(v__3518565_37);
-if (True == v__3518566_37) {
-Obj v__3518567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518568_37 = PRIM_CAR(v__3518567_37);
-Obj v__3518569_37 = PRIM_CDR(v__3518568_37);
-Obj v__3518570_37 = PRIM_CAR(v__3518569_37);
-Obj v__3517717_37 = v__3518570_37;
-Obj v__3518571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518572_37 = PRIM_CAR(v__3518571_37);
-Obj v__3518573_37 = PRIM_CDR(v__3518572_37);
-Obj v__3518574_37 = PRIM_CDR(v__3518573_37);
-Obj v__3518575_37 = PRIM_ISCONS(v__3518574_37);
-if (True == v__3518575_37) {
-Obj v__3518576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518577_37 = PRIM_CAR(v__3518576_37);
-Obj v__3518578_37 = PRIM_CDR(v__3518577_37);
-Obj v__3518579_37 = PRIM_CDR(v__3518578_37);
-Obj v__3518580_37 = PRIM_CAR(v__3518579_37);
-Obj v__3517718_37 = v__3518580_37;
-Obj v__3518581_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518582_37 = PRIM_CAR(v__3518581_37);
-Obj v__3518583_37 = PRIM_CDR(v__3518582_37);
-Obj v__3518584_37 = PRIM_CDR(v__3518583_37);
-Obj v__3518585_37 = PRIM_CDR(v__3518584_37);
-Obj v__3518586_37 = PRIM_EQ(Nil, v__3518585_37);
-if (True == v__3518586_37) {
-Obj v__3518587_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518588_37 = PRIM_CDR(v__3518587_37);
-Obj v__3517719_37 = v__3518588_37;
-R[1] = v__3517717_37;
-R[2] = v__3517719_37;
+Obj v__3519913_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520750_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520750_37) {
+Obj v__3520751_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520752_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3520751_37);
+if (True == v__3520752_37) {
+Obj v__3520753_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520754_37 = PRIM_ISCONS(v__3520753_37);
+if (True == v__3520754_37) {
+Obj v__3520755_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520756_37 = PRIM_CAR(v__3520755_37);
+Obj v__3520757_37 = PRIM_ISCONS(v__3520756_37);
+if (True == v__3520757_37) {
+Obj v__3520758_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520759_37 = PRIM_CAR(v__3520758_37);
+Obj v__3520760_37 = PRIM_CAR(v__3520759_37);
+Obj v__3520761_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520760_37);
+if (True == v__3520761_37) {
+Obj v__3520762_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520763_37 = PRIM_CAR(v__3520762_37);
+Obj v__3520764_37 = PRIM_CDR(v__3520763_37);
+Obj v__3520765_37 = PRIM_ISCONS(v__3520764_37);
+if (True == v__3520765_37) {
+Obj v__3520766_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520767_37 = PRIM_CAR(v__3520766_37);
+Obj v__3520768_37 = PRIM_CDR(v__3520767_37);
+Obj v__3520769_37 = PRIM_CAR(v__3520768_37);
+Obj v__3519916_37 = v__3520769_37;
+Obj v__3520770_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520771_37 = PRIM_CAR(v__3520770_37);
+Obj v__3520772_37 = PRIM_CDR(v__3520771_37);
+Obj v__3520773_37 = PRIM_CDR(v__3520772_37);
+Obj v__3520774_37 = PRIM_ISCONS(v__3520773_37);
+if (True == v__3520774_37) {
+Obj v__3520775_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520776_37 = PRIM_CAR(v__3520775_37);
+Obj v__3520777_37 = PRIM_CDR(v__3520776_37);
+Obj v__3520778_37 = PRIM_CDR(v__3520777_37);
+Obj v__3520779_37 = PRIM_CAR(v__3520778_37);
+Obj v__3519917_37 = v__3520779_37;
+Obj v__3520780_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520781_37 = PRIM_CAR(v__3520780_37);
+Obj v__3520782_37 = PRIM_CDR(v__3520781_37);
+Obj v__3520783_37 = PRIM_CDR(v__3520782_37);
+Obj v__3520784_37 = PRIM_CDR(v__3520783_37);
+Obj v__3520785_37 = PRIM_EQ(Nil, v__3520784_37);
+if (True == v__3520785_37) {
+Obj v__3520786_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520787_37 = PRIM_CDR(v__3520786_37);
+Obj v__3519918_37 = v__3520787_37;
+R[1] = v__3519916_37;
+R[2] = v__3519918_37;
 saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3517718_37, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519917_37, globalRef(co, getBinding(co, packageID, 70)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517714_37);
+coraCall0(co, v__3519913_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518589_37= co->res;
-Obj v__3517717_37 = R[1];
-Obj v__3517719_37 = R[2];
-Obj v__3518590_37 = makeCons(co->gc, v__3518589_37, Nil);
-Obj v__3518591_37 = makeCons(co->gc, v__3517717_37, v__3518590_37);
-Obj v__3518592_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518591_37);
-Obj v__3518593_37 = makeCons(co->gc, v__3518592_37, v__3517719_37);
-Obj v__3518594_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518593_37);
+Obj v__3520788_37= co->res;
+Obj v__3519916_37 = R[1];
+Obj v__3519918_37 = R[2];
+Obj v__3520789_37 = makeCons(co->gc, v__3520788_37, Nil);
+Obj v__3520790_37 = makeCons(co->gc, v__3519916_37, v__3520789_37);
+Obj v__3520791_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520790_37);
+Obj v__3520792_37 = makeCons(co->gc, v__3520791_37, v__3519918_37);
+Obj v__3520793_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3520792_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3518594_37);
+coraCall1(co, closureRef(R[0], 1), v__3520793_37);
 return;
 }
 }
@@ -6284,15 +6284,15 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518547_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518547_37) {
-Obj v__3518548_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517715_37 = v__3518548_37;
-Obj v__3518549_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517716_37 = v__3518549_37;
-Obj v__3518550_37 = makeCons(co->gc, v__3517715_37, v__3517716_37);
+Obj v__3520746_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520746_37) {
+Obj v__3520747_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519914_37 = v__3520747_37;
+Obj v__3520748_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519915_37 = v__3520748_37;
+Obj v__3520749_37 = makeCons(co->gc, v__3519914_37, v__3519915_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3518550_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3520749_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6307,10 +6307,10 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3518543_37 = makeCons(co->gc, v_x, Nil);
-Obj v__3518544_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3518543_37);
-coraReturn(co, v__3518544_37);
+Obj v__3519422_37 = R[1];
+Obj v__3520742_37 = makeCons(co->gc, v__3519422_37, Nil);
+Obj v__3520743_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3520742_37);
+coraReturn(co, v__3520743_37);
 return;
 }
 }
@@ -6320,151 +6320,151 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517500_37 = R[1];
-Obj v__3517501_37 = R[2];
-R[1] = v__3517501_37;
-R[2] = v__3517500_37;
+Obj v__3519388_37 = R[1];
+Obj v__3519389_37 = R[2];
+R[1] = v__3519389_37;
+R[2] = v__3519388_37;
 saveCont(co, clofun46, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517501_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519389_37);
 return;
 }
 case 1:
 {
-Obj v__3518472_37= co->res;
-Obj v__3517501_37 = R[1];
-Obj v__3517697_37 = v__3518472_37;
-Obj v__3518473_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3517697_37);
-if (True == v__3518473_37) {
-coraReturn(co, v__3517501_37);
+Obj v__3520671_37= co->res;
+Obj v__3519389_37 = R[1];
+Obj v__3519896_37 = v__3520671_37;
+Obj v__3520672_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3519896_37);
+if (True == v__3520672_37) {
+coraReturn(co, v__3519389_37);
 return;
 } else {
-Obj v__3518474_37 = makeCons(co->gc, v__3517697_37, Nil);
-Obj v__3518475_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3518474_37);
-coraReturn(co, v__3518475_37);
+Obj v__3520673_37 = makeCons(co->gc, v__3519896_37, Nil);
+Obj v__3520674_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520673_37);
+coraReturn(co, v__3520674_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3518539_37= co->res;
-Obj v__3518537_37 = R[1];
-Obj v__3518540_37 = makeCons(co->gc, v__3518537_37, v__3518539_37);
-Obj v__3518541_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3518540_37);
-coraReturn(co, v__3518541_37);
+Obj v__3520738_37= co->res;
+Obj v__3520736_37 = R[1];
+Obj v__3520739_37 = makeCons(co->gc, v__3520736_37, v__3520738_37);
+Obj v__3520740_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3520739_37);
+coraReturn(co, v__3520740_37);
 return;
 }
 case 3:
 {
-Obj v__3518538_37= co->res;
-Obj v__3517707_37 = R[1];
-Obj v__3518537_37 = R[2];
-R[1] = v__3518537_37;
+Obj v__3520737_37= co->res;
+Obj v__3519906_37 = R[1];
+Obj v__3520736_37 = R[2];
+R[1] = v__3520736_37;
 saveCont(co, clofun46, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518538_37, v__3517707_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520737_37, v__3519906_37);
 return;
 }
 case 4:
 {
-Obj v__3518534_37= co->res;
-Obj v__3517705_37 = R[1];
-Obj v__3517500_37 = R[2];
-Obj v__3517707_37 = R[3];
-Obj v__3518535_37 = makeCons(co->gc, v__3518534_37, Nil);
-Obj v__3518536_37 = makeCons(co->gc, v__3517705_37, v__3518535_37);
-Obj v__3518537_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518536_37);
-R[1] = v__3517707_37;
-R[2] = v__3518537_37;
+Obj v__3520733_37= co->res;
+Obj v__3519904_37 = R[1];
+Obj v__3519388_37 = R[2];
+Obj v__3519906_37 = R[3];
+Obj v__3520734_37 = makeCons(co->gc, v__3520733_37, Nil);
+Obj v__3520735_37 = makeCons(co->gc, v__3519904_37, v__3520734_37);
+Obj v__3520736_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520735_37);
+R[1] = v__3519906_37;
+R[2] = v__3520736_37;
 saveCont(co, clofun46, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3517500_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3519388_37);
 return;
 }
 case 5:
 {
-Obj v__3518533_37= co->res;
-Obj v__3517706_37 = R[1];
-Obj v__3517705_37 = R[2];
-Obj v__3517500_37 = R[3];
-Obj v__3517707_37 = v__3518533_37;
-R[1] = v__3517705_37;
-R[2] = v__3517500_37;
-R[3] = v__3517707_37;
+Obj v__3520732_37= co->res;
+Obj v__3519905_37 = R[1];
+Obj v__3519904_37 = R[2];
+Obj v__3519388_37 = R[3];
+Obj v__3519906_37 = v__3520732_37;
+R[1] = v__3519904_37;
+R[2] = v__3519388_37;
+R[3] = v__3519906_37;
 saveCont(co, clofun46, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3517707_37, v__3517706_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519906_37, v__3519905_37);
 return;
 }
 case 6:
 {
-Obj v__3518470_37= co->res;
-Obj v__3517501_37 = R[1];
-Obj v__3517500_37 = R[2];
-if (True == v__3518470_37) {
-coraReturn(co, v__3517501_37);
+Obj v__3520669_37= co->res;
+Obj v__3519389_37 = R[1];
+Obj v__3519388_37 = R[2];
+if (True == v__3520669_37) {
+coraReturn(co, v__3519389_37);
 return;
 } else {
-Obj v__3518471_37 = primIsSymbol(v__3517501_37);
-if (True == v__3518471_37) {
-R[1] = v__3517501_37;
+Obj v__3520670_37 = primIsSymbol(v__3519389_37);
+if (True == v__3520670_37) {
+R[1] = v__3519389_37;
 saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517501_37, v__3517500_37);
-return;
-} else {
-Obj v__3517698_37 = makeNative(co->gc, 3, clofun45, 0, 2, v__3517501_37, v__3517500_37);
-Obj v__3518513_37 = PRIM_ISCONS(v__3517501_37);
-if (True == v__3518513_37) {
-Obj v__3518514_37 = PRIM_CAR(v__3517501_37);
-Obj v__3518515_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518514_37);
-if (True == v__3518515_37) {
-Obj v__3518516_37 = PRIM_CDR(v__3517501_37);
-Obj v__3518517_37 = PRIM_ISCONS(v__3518516_37);
-if (True == v__3518517_37) {
-Obj v__3518518_37 = PRIM_CDR(v__3517501_37);
-Obj v__3518519_37 = PRIM_CAR(v__3518518_37);
-Obj v__3517705_37 = v__3518519_37;
-Obj v__3518520_37 = PRIM_CDR(v__3517501_37);
-Obj v__3518521_37 = PRIM_CDR(v__3518520_37);
-Obj v__3518522_37 = PRIM_ISCONS(v__3518521_37);
-if (True == v__3518522_37) {
-Obj v__3518523_37 = PRIM_CDR(v__3517501_37);
-Obj v__3518524_37 = PRIM_CDR(v__3518523_37);
-Obj v__3518525_37 = PRIM_CAR(v__3518524_37);
-Obj v__3517706_37 = v__3518525_37;
-Obj v__3518526_37 = PRIM_CDR(v__3517501_37);
-Obj v__3518527_37 = PRIM_CDR(v__3518526_37);
-Obj v__3518528_37 = PRIM_CDR(v__3518527_37);
-Obj v__3518529_37 = PRIM_EQ(Nil, v__3518528_37);
-if (True == v__3518529_37) {
-Obj v__3518530_37 = makeCons(co->gc, v__3517706_37, Nil);
-Obj v__3518531_37 = makeCons(co->gc, v__3517705_37, v__3518530_37);
-Obj v__3518532_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518531_37);
-R[1] = v__3517706_37;
-R[2] = v__3517705_37;
-R[3] = v__3517500_37;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519389_37, v__3519388_37);
+return;
+} else {
+Obj v__3519897_37 = makeNative(co->gc, 3, clofun45, 0, 2, v__3519389_37, v__3519388_37);
+Obj v__3520712_37 = PRIM_ISCONS(v__3519389_37);
+if (True == v__3520712_37) {
+Obj v__3520713_37 = PRIM_CAR(v__3519389_37);
+Obj v__3520714_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520713_37);
+if (True == v__3520714_37) {
+Obj v__3520715_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520716_37 = PRIM_ISCONS(v__3520715_37);
+if (True == v__3520716_37) {
+Obj v__3520717_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520718_37 = PRIM_CAR(v__3520717_37);
+Obj v__3519904_37 = v__3520718_37;
+Obj v__3520719_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520720_37 = PRIM_CDR(v__3520719_37);
+Obj v__3520721_37 = PRIM_ISCONS(v__3520720_37);
+if (True == v__3520721_37) {
+Obj v__3520722_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520723_37 = PRIM_CDR(v__3520722_37);
+Obj v__3520724_37 = PRIM_CAR(v__3520723_37);
+Obj v__3519905_37 = v__3520724_37;
+Obj v__3520725_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520726_37 = PRIM_CDR(v__3520725_37);
+Obj v__3520727_37 = PRIM_CDR(v__3520726_37);
+Obj v__3520728_37 = PRIM_EQ(Nil, v__3520727_37);
+if (True == v__3520728_37) {
+Obj v__3520729_37 = makeCons(co->gc, v__3519905_37, Nil);
+Obj v__3520730_37 = makeCons(co->gc, v__3519904_37, v__3520729_37);
+Obj v__3520731_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520730_37);
+R[1] = v__3519905_37;
+R[2] = v__3519904_37;
+R[3] = v__3519388_37;
 saveCont(co, clofun46, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518532_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3520731_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517698_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517698_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517698_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517698_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517698_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 }
@@ -6477,99 +6477,99 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517699_37 = makeNative(co->gc, 3, clofun44, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3518481_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518481_37) {
-Obj v__3518482_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518483_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518482_37);
-if (True == v__3518483_37) {
-Obj v__3518484_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518485_37 = PRIM_ISCONS(v__3518484_37);
-if (True == v__3518485_37) {
-Obj v__3518486_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518487_37 = PRIM_CAR(v__3518486_37);
-Obj v__3517702_37 = v__3518487_37;
-Obj v__3518488_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518489_37 = PRIM_CDR(v__3518488_37);
-Obj v__3518490_37 = PRIM_ISCONS(v__3518489_37);
-if (True == v__3518490_37) {
-Obj v__3518491_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518492_37 = PRIM_CDR(v__3518491_37);
-Obj v__3518493_37 = PRIM_CAR(v__3518492_37);
-Obj v__3517703_37 = v__3518493_37;
-Obj v__3518494_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518495_37 = PRIM_CDR(v__3518494_37);
-Obj v__3518496_37 = PRIM_CDR(v__3518495_37);
-Obj v__3518497_37 = PRIM_ISCONS(v__3518496_37);
-if (True == v__3518497_37) {
-Obj v__3518498_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518499_37 = PRIM_CDR(v__3518498_37);
-Obj v__3518500_37 = PRIM_CDR(v__3518499_37);
-Obj v__3518501_37 = PRIM_CAR(v__3518500_37);
-Obj v__3517704_37 = v__3518501_37;
-Obj v__3518502_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518503_37 = PRIM_CDR(v__3518502_37);
-Obj v__3518504_37 = PRIM_CDR(v__3518503_37);
-Obj v__3518505_37 = PRIM_CDR(v__3518504_37);
-Obj v__3518506_37 = PRIM_EQ(Nil, v__3518505_37);
-if (True == v__3518506_37) {
-R[1] = v__3517704_37;
-R[2] = v__3517702_37;
+Obj v__3519898_37 = makeNative(co->gc, 3, clofun44, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520680_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520680_37) {
+Obj v__3520681_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520682_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520681_37);
+if (True == v__3520682_37) {
+Obj v__3520683_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520684_37 = PRIM_ISCONS(v__3520683_37);
+if (True == v__3520684_37) {
+Obj v__3520685_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520686_37 = PRIM_CAR(v__3520685_37);
+Obj v__3519901_37 = v__3520686_37;
+Obj v__3520687_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520688_37 = PRIM_CDR(v__3520687_37);
+Obj v__3520689_37 = PRIM_ISCONS(v__3520688_37);
+if (True == v__3520689_37) {
+Obj v__3520690_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520691_37 = PRIM_CDR(v__3520690_37);
+Obj v__3520692_37 = PRIM_CAR(v__3520691_37);
+Obj v__3519902_37 = v__3520692_37;
+Obj v__3520693_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520694_37 = PRIM_CDR(v__3520693_37);
+Obj v__3520695_37 = PRIM_CDR(v__3520694_37);
+Obj v__3520696_37 = PRIM_ISCONS(v__3520695_37);
+if (True == v__3520696_37) {
+Obj v__3520697_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520698_37 = PRIM_CDR(v__3520697_37);
+Obj v__3520699_37 = PRIM_CDR(v__3520698_37);
+Obj v__3520700_37 = PRIM_CAR(v__3520699_37);
+Obj v__3519903_37 = v__3520700_37;
+Obj v__3520701_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520702_37 = PRIM_CDR(v__3520701_37);
+Obj v__3520703_37 = PRIM_CDR(v__3520702_37);
+Obj v__3520704_37 = PRIM_CDR(v__3520703_37);
+Obj v__3520705_37 = PRIM_EQ(Nil, v__3520704_37);
+if (True == v__3520705_37) {
+R[1] = v__3519903_37;
+R[2] = v__3519901_37;
 saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517703_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3519902_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517699_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517699_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517699_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517699_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517699_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517699_37);
+coraCall0(co, v__3519898_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518508_37= co->res;
-Obj v__3518507_37 = R[1];
-Obj v__3517702_37 = R[2];
-Obj v__3518509_37 = makeCons(co->gc, v__3518508_37, Nil);
-Obj v__3518510_37 = makeCons(co->gc, v__3518507_37, v__3518509_37);
-Obj v__3518511_37 = makeCons(co->gc, v__3517702_37, v__3518510_37);
-Obj v__3518512_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518511_37);
-coraReturn(co, v__3518512_37);
+Obj v__3520707_37= co->res;
+Obj v__3520706_37 = R[1];
+Obj v__3519901_37 = R[2];
+Obj v__3520708_37 = makeCons(co->gc, v__3520707_37, Nil);
+Obj v__3520709_37 = makeCons(co->gc, v__3520706_37, v__3520708_37);
+Obj v__3520710_37 = makeCons(co->gc, v__3519901_37, v__3520709_37);
+Obj v__3520711_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520710_37);
+coraReturn(co, v__3520711_37);
 return;
 }
 case 2:
 {
-Obj v__3518507_37= co->res;
-Obj v__3517704_37 = R[1];
-Obj v__3517702_37 = R[2];
-R[1] = v__3518507_37;
-R[2] = v__3517702_37;
+Obj v__3520706_37= co->res;
+Obj v__3519903_37 = R[1];
+Obj v__3519901_37 = R[2];
+R[1] = v__3520706_37;
+R[2] = v__3519901_37;
 saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3517704_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3519903_37);
 return;
 }
 }
@@ -6579,14 +6579,14 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518476_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518476_37) {
-Obj v__3518477_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517700_37 = v__3518477_37;
-Obj v__3518478_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517701_37 = v__3518478_37;
-R[1] = v__3517700_37;
-R[2] = v__3517701_37;
+Obj v__3520675_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520675_37) {
+Obj v__3520676_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519899_37 = v__3520676_37;
+Obj v__3520677_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519900_37 = v__3520677_37;
+R[1] = v__3519899_37;
+R[2] = v__3519900_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
 return;
@@ -6598,12 +6598,12 @@ return;
 }
 case 1:
 {
-Obj v__3518479_37= co->res;
-Obj v__3517700_37 = R[1];
-Obj v__3517701_37 = R[2];
-Obj v__3518480_37 = makeCons(co->gc, v__3517700_37, v__3517701_37);
+Obj v__3520678_37= co->res;
+Obj v__3519899_37 = R[1];
+Obj v__3519900_37 = R[2];
+Obj v__3520679_37 = makeCons(co->gc, v__3519899_37, v__3519900_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518479_37, v__3518480_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520678_37, v__3520679_37);
 return;
 }
 }
@@ -6613,86 +6613,86 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517487_37 = R[1];
-R[1] = v__3517487_37;
+Obj v__3519300_37 = R[1];
+R[1] = v__3519300_37;
 saveCont(co, clofun43, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3517487_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519300_37);
 return;
 }
 case 1:
 {
-Obj v__3518468_37= co->res;
-Obj v__3517695_37 = R[1];
+Obj v__3520667_37= co->res;
+Obj v__3519894_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518468_37, v__3517695_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520667_37, v__3519894_37);
 return;
 }
 case 2:
 {
-Obj v__3518295_37= co->res;
-Obj v__3517487_37 = R[1];
-if (True == v__3518295_37) {
+Obj v__3520494_37= co->res;
+Obj v__3519300_37 = R[1];
+if (True == v__3520494_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3518296_37 = primIsSymbol(v__3517487_37);
-if (True == v__3518296_37) {
-Obj v__3518297_37 = makeCons(co->gc, v__3517487_37, Nil);
-coraReturn(co, v__3518297_37);
-return;
-} else {
-Obj v__3517668_37 = makeNative(co->gc, 1, clofun42, 0, 1, v__3517487_37);
-Obj v__3518451_37 = PRIM_ISCONS(v__3517487_37);
-if (True == v__3518451_37) {
-Obj v__3518452_37 = PRIM_CAR(v__3517487_37);
-Obj v__3518453_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518452_37);
-if (True == v__3518453_37) {
-Obj v__3518454_37 = PRIM_CDR(v__3517487_37);
-Obj v__3518455_37 = PRIM_ISCONS(v__3518454_37);
-if (True == v__3518455_37) {
-Obj v__3518456_37 = PRIM_CDR(v__3517487_37);
-Obj v__3518457_37 = PRIM_CAR(v__3518456_37);
-Obj v__3517695_37 = v__3518457_37;
-Obj v__3518458_37 = PRIM_CDR(v__3517487_37);
-Obj v__3518459_37 = PRIM_CDR(v__3518458_37);
-Obj v__3518460_37 = PRIM_ISCONS(v__3518459_37);
-if (True == v__3518460_37) {
-Obj v__3518461_37 = PRIM_CDR(v__3517487_37);
-Obj v__3518462_37 = PRIM_CDR(v__3518461_37);
-Obj v__3518463_37 = PRIM_CAR(v__3518462_37);
-Obj v__3517696_37 = v__3518463_37;
-Obj v__3518464_37 = PRIM_CDR(v__3517487_37);
-Obj v__3518465_37 = PRIM_CDR(v__3518464_37);
-Obj v__3518466_37 = PRIM_CDR(v__3518465_37);
-Obj v__3518467_37 = PRIM_EQ(Nil, v__3518466_37);
-if (True == v__3518467_37) {
-R[1] = v__3517695_37;
+Obj v__3520495_37 = primIsSymbol(v__3519300_37);
+if (True == v__3520495_37) {
+Obj v__3520496_37 = makeCons(co->gc, v__3519300_37, Nil);
+coraReturn(co, v__3520496_37);
+return;
+} else {
+Obj v__3519867_37 = makeNative(co->gc, 1, clofun42, 0, 1, v__3519300_37);
+Obj v__3520650_37 = PRIM_ISCONS(v__3519300_37);
+if (True == v__3520650_37) {
+Obj v__3520651_37 = PRIM_CAR(v__3519300_37);
+Obj v__3520652_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520651_37);
+if (True == v__3520652_37) {
+Obj v__3520653_37 = PRIM_CDR(v__3519300_37);
+Obj v__3520654_37 = PRIM_ISCONS(v__3520653_37);
+if (True == v__3520654_37) {
+Obj v__3520655_37 = PRIM_CDR(v__3519300_37);
+Obj v__3520656_37 = PRIM_CAR(v__3520655_37);
+Obj v__3519894_37 = v__3520656_37;
+Obj v__3520657_37 = PRIM_CDR(v__3519300_37);
+Obj v__3520658_37 = PRIM_CDR(v__3520657_37);
+Obj v__3520659_37 = PRIM_ISCONS(v__3520658_37);
+if (True == v__3520659_37) {
+Obj v__3520660_37 = PRIM_CDR(v__3519300_37);
+Obj v__3520661_37 = PRIM_CDR(v__3520660_37);
+Obj v__3520662_37 = PRIM_CAR(v__3520661_37);
+Obj v__3519895_37 = v__3520662_37;
+Obj v__3520663_37 = PRIM_CDR(v__3519300_37);
+Obj v__3520664_37 = PRIM_CDR(v__3520663_37);
+Obj v__3520665_37 = PRIM_CDR(v__3520664_37);
+Obj v__3520666_37 = PRIM_EQ(Nil, v__3520665_37);
+if (True == v__3520666_37) {
+R[1] = v__3519894_37;
 saveCont(co, clofun43, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517696_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519895_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517668_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517668_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517668_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517668_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517668_37);
+coraCall0(co, v__3519867_37);
 return;
 }
 }
@@ -6705,84 +6705,84 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517669_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v__3518421_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518421_37) {
-Obj v__3518422_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518423_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518422_37);
-if (True == v__3518423_37) {
-Obj v__3518424_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518425_37 = PRIM_ISCONS(v__3518424_37);
-if (True == v__3518425_37) {
-Obj v__3518426_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518427_37 = PRIM_CAR(v__3518426_37);
-Obj v__3517692_37 = v__3518427_37;
-Obj v__3518428_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518429_37 = PRIM_CDR(v__3518428_37);
-Obj v__3518430_37 = PRIM_ISCONS(v__3518429_37);
-if (True == v__3518430_37) {
-Obj v__3518431_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518432_37 = PRIM_CDR(v__3518431_37);
-Obj v__3518433_37 = PRIM_CAR(v__3518432_37);
-Obj v__3517693_37 = v__3518433_37;
-Obj v__3518434_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518435_37 = PRIM_CDR(v__3518434_37);
-Obj v__3518436_37 = PRIM_CDR(v__3518435_37);
-Obj v__3518437_37 = PRIM_ISCONS(v__3518436_37);
-if (True == v__3518437_37) {
-Obj v__3518438_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518439_37 = PRIM_CDR(v__3518438_37);
-Obj v__3518440_37 = PRIM_CDR(v__3518439_37);
-Obj v__3518441_37 = PRIM_CAR(v__3518440_37);
-Obj v__3517694_37 = v__3518441_37;
-Obj v__3518442_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518443_37 = PRIM_CDR(v__3518442_37);
-Obj v__3518444_37 = PRIM_CDR(v__3518443_37);
-Obj v__3518445_37 = PRIM_CDR(v__3518444_37);
-Obj v__3518446_37 = PRIM_EQ(Nil, v__3518445_37);
-if (True == v__3518446_37) {
-Obj v__3518447_37 = makeCons(co->gc, v__3517694_37, Nil);
-Obj v__3518448_37 = makeCons(co->gc, v__3517693_37, v__3518447_37);
-Obj v__3518449_37 = makeCons(co->gc, v__3517692_37, v__3518448_37);
+Obj v__3519868_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3520620_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520620_37) {
+Obj v__3520621_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520622_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520621_37);
+if (True == v__3520622_37) {
+Obj v__3520623_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520624_37 = PRIM_ISCONS(v__3520623_37);
+if (True == v__3520624_37) {
+Obj v__3520625_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520626_37 = PRIM_CAR(v__3520625_37);
+Obj v__3519891_37 = v__3520626_37;
+Obj v__3520627_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520628_37 = PRIM_CDR(v__3520627_37);
+Obj v__3520629_37 = PRIM_ISCONS(v__3520628_37);
+if (True == v__3520629_37) {
+Obj v__3520630_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520631_37 = PRIM_CDR(v__3520630_37);
+Obj v__3520632_37 = PRIM_CAR(v__3520631_37);
+Obj v__3519892_37 = v__3520632_37;
+Obj v__3520633_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520634_37 = PRIM_CDR(v__3520633_37);
+Obj v__3520635_37 = PRIM_CDR(v__3520634_37);
+Obj v__3520636_37 = PRIM_ISCONS(v__3520635_37);
+if (True == v__3520636_37) {
+Obj v__3520637_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520638_37 = PRIM_CDR(v__3520637_37);
+Obj v__3520639_37 = PRIM_CDR(v__3520638_37);
+Obj v__3520640_37 = PRIM_CAR(v__3520639_37);
+Obj v__3519893_37 = v__3520640_37;
+Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520642_37 = PRIM_CDR(v__3520641_37);
+Obj v__3520643_37 = PRIM_CDR(v__3520642_37);
+Obj v__3520644_37 = PRIM_CDR(v__3520643_37);
+Obj v__3520645_37 = PRIM_EQ(Nil, v__3520644_37);
+if (True == v__3520645_37) {
+Obj v__3520646_37 = makeCons(co->gc, v__3519893_37, Nil);
+Obj v__3520647_37 = makeCons(co->gc, v__3519892_37, v__3520646_37);
+Obj v__3520648_37 = makeCons(co->gc, v__3519891_37, v__3520647_37);
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518449_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520648_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517669_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517669_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517669_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517669_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517669_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517669_37);
+coraCall0(co, v__3519868_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518450_37= co->res;
+Obj v__3520649_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518450_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520649_37);
 return;
 }
 }
@@ -6792,67 +6792,67 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517670_37 = makeNative(co->gc, 3, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3518401_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518401_37) {
-Obj v__3518402_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518403_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518402_37);
-if (True == v__3518403_37) {
-Obj v__3518404_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518405_37 = PRIM_ISCONS(v__3518404_37);
-if (True == v__3518405_37) {
-Obj v__3518406_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518407_37 = PRIM_CAR(v__3518406_37);
-Obj v__3517690_37 = v__3518407_37;
-Obj v__3518408_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518409_37 = PRIM_CDR(v__3518408_37);
-Obj v__3518410_37 = PRIM_ISCONS(v__3518409_37);
-if (True == v__3518410_37) {
-Obj v__3518411_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518412_37 = PRIM_CDR(v__3518411_37);
-Obj v__3518413_37 = PRIM_CAR(v__3518412_37);
-Obj v__3517691_37 = v__3518413_37;
-Obj v__3518414_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518415_37 = PRIM_CDR(v__3518414_37);
-Obj v__3518416_37 = PRIM_CDR(v__3518415_37);
-Obj v__3518417_37 = PRIM_EQ(Nil, v__3518416_37);
-if (True == v__3518417_37) {
-Obj v__3518418_37 = makeCons(co->gc, v__3517691_37, Nil);
-Obj v__3518419_37 = makeCons(co->gc, v__3517690_37, v__3518418_37);
+Obj v__3519869_37 = makeNative(co->gc, 3, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3520600_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520600_37) {
+Obj v__3520601_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520602_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520601_37);
+if (True == v__3520602_37) {
+Obj v__3520603_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520604_37 = PRIM_ISCONS(v__3520603_37);
+if (True == v__3520604_37) {
+Obj v__3520605_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520606_37 = PRIM_CAR(v__3520605_37);
+Obj v__3519889_37 = v__3520606_37;
+Obj v__3520607_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520608_37 = PRIM_CDR(v__3520607_37);
+Obj v__3520609_37 = PRIM_ISCONS(v__3520608_37);
+if (True == v__3520609_37) {
+Obj v__3520610_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520611_37 = PRIM_CDR(v__3520610_37);
+Obj v__3520612_37 = PRIM_CAR(v__3520611_37);
+Obj v__3519890_37 = v__3520612_37;
+Obj v__3520613_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520614_37 = PRIM_CDR(v__3520613_37);
+Obj v__3520615_37 = PRIM_CDR(v__3520614_37);
+Obj v__3520616_37 = PRIM_EQ(Nil, v__3520615_37);
+if (True == v__3520616_37) {
+Obj v__3520617_37 = makeCons(co->gc, v__3519890_37, Nil);
+Obj v__3520618_37 = makeCons(co->gc, v__3519889_37, v__3520617_37);
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518419_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520618_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517670_37);
+coraCall0(co, v__3519869_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517670_37);
+coraCall0(co, v__3519869_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517670_37);
+coraCall0(co, v__3519869_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517670_37);
+coraCall0(co, v__3519869_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517670_37);
+coraCall0(co, v__3519869_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518420_37= co->res;
+Obj v__3520619_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518420_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520619_37);
 return;
 }
 }
@@ -6862,106 +6862,106 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517671_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3518371_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518371_37) {
-Obj v__3518372_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518373_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518372_37);
-if (True == v__3518373_37) {
-Obj v__3518374_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518375_37 = PRIM_ISCONS(v__3518374_37);
-if (True == v__3518375_37) {
-Obj v__3518376_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518377_37 = PRIM_CAR(v__3518376_37);
-Obj v__3517687_37 = v__3518377_37;
-Obj v__3518378_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518379_37 = PRIM_CDR(v__3518378_37);
-Obj v__3518380_37 = PRIM_ISCONS(v__3518379_37);
-if (True == v__3518380_37) {
-Obj v__3518381_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518382_37 = PRIM_CDR(v__3518381_37);
-Obj v__3518383_37 = PRIM_CAR(v__3518382_37);
-Obj v__3517688_37 = v__3518383_37;
-Obj v__3518384_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518385_37 = PRIM_CDR(v__3518384_37);
-Obj v__3518386_37 = PRIM_CDR(v__3518385_37);
-Obj v__3518387_37 = PRIM_ISCONS(v__3518386_37);
-if (True == v__3518387_37) {
-Obj v__3518388_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518389_37 = PRIM_CDR(v__3518388_37);
-Obj v__3518390_37 = PRIM_CDR(v__3518389_37);
-Obj v__3518391_37 = PRIM_CAR(v__3518390_37);
-Obj v__3517689_37 = v__3518391_37;
-Obj v__3518392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518393_37 = PRIM_CDR(v__3518392_37);
-Obj v__3518394_37 = PRIM_CDR(v__3518393_37);
-Obj v__3518395_37 = PRIM_CDR(v__3518394_37);
-Obj v__3518396_37 = PRIM_EQ(Nil, v__3518395_37);
-if (True == v__3518396_37) {
-R[1] = v__3517689_37;
-R[2] = v__3517687_37;
+Obj v__3519870_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3520570_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520570_37) {
+Obj v__3520571_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520572_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520571_37);
+if (True == v__3520572_37) {
+Obj v__3520573_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520574_37 = PRIM_ISCONS(v__3520573_37);
+if (True == v__3520574_37) {
+Obj v__3520575_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520576_37 = PRIM_CAR(v__3520575_37);
+Obj v__3519886_37 = v__3520576_37;
+Obj v__3520577_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520578_37 = PRIM_CDR(v__3520577_37);
+Obj v__3520579_37 = PRIM_ISCONS(v__3520578_37);
+if (True == v__3520579_37) {
+Obj v__3520580_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520581_37 = PRIM_CDR(v__3520580_37);
+Obj v__3520582_37 = PRIM_CAR(v__3520581_37);
+Obj v__3519887_37 = v__3520582_37;
+Obj v__3520583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520584_37 = PRIM_CDR(v__3520583_37);
+Obj v__3520585_37 = PRIM_CDR(v__3520584_37);
+Obj v__3520586_37 = PRIM_ISCONS(v__3520585_37);
+if (True == v__3520586_37) {
+Obj v__3520587_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520588_37 = PRIM_CDR(v__3520587_37);
+Obj v__3520589_37 = PRIM_CDR(v__3520588_37);
+Obj v__3520590_37 = PRIM_CAR(v__3520589_37);
+Obj v__3519888_37 = v__3520590_37;
+Obj v__3520591_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520592_37 = PRIM_CDR(v__3520591_37);
+Obj v__3520593_37 = PRIM_CDR(v__3520592_37);
+Obj v__3520594_37 = PRIM_CDR(v__3520593_37);
+Obj v__3520595_37 = PRIM_EQ(Nil, v__3520594_37);
+if (True == v__3520595_37) {
+R[1] = v__3519888_37;
+R[2] = v__3519886_37;
 saveCont(co, clofun40, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517688_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519887_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517671_37);
+coraCall0(co, v__3519870_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517671_37);
+coraCall0(co, v__3519870_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517671_37);
+coraCall0(co, v__3519870_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517671_37);
+coraCall0(co, v__3519870_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517671_37);
+coraCall0(co, v__3519870_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517671_37);
+coraCall0(co, v__3519870_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518400_37= co->res;
-Obj v__3518397_37 = R[1];
+Obj v__3520599_37= co->res;
+Obj v__3520596_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3518397_37, v__3518400_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520596_37, v__3520599_37);
 return;
 }
 case 2:
 {
-Obj v__3518398_37= co->res;
-Obj v__3517687_37 = R[1];
-Obj v__3518397_37 = R[2];
-Obj v__3518399_37 = makeCons(co->gc, v__3517687_37, Nil);
-R[1] = v__3518397_37;
+Obj v__3520597_37= co->res;
+Obj v__3519886_37 = R[1];
+Obj v__3520596_37 = R[2];
+Obj v__3520598_37 = makeCons(co->gc, v__3519886_37, Nil);
+R[1] = v__3520596_37;
 saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518398_37, v__3518399_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520597_37, v__3520598_37);
 return;
 }
 case 3:
 {
-Obj v__3518397_37= co->res;
-Obj v__3517689_37 = R[1];
-Obj v__3517687_37 = R[2];
-R[1] = v__3517687_37;
-R[2] = v__3518397_37;
+Obj v__3520596_37= co->res;
+Obj v__3519888_37 = R[1];
+Obj v__3519886_37 = R[2];
+R[1] = v__3519886_37;
+R[2] = v__3520596_37;
 saveCont(co, clofun40, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517689_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519888_37);
 return;
 }
 }
@@ -6971,38 +6971,38 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517672_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3518361_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518361_37) {
-Obj v__3518362_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518363_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518362_37);
-if (True == v__3518363_37) {
-Obj v__3518364_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518365_37 = PRIM_ISCONS(v__3518364_37);
-if (True == v__3518365_37) {
-Obj v__3518366_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518367_37 = PRIM_CAR(v__3518366_37);
-Obj v__3517685_37 = v__3518367_37;
-Obj v__3518368_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518369_37 = PRIM_CDR(v__3518368_37);
-Obj v__3517686_37 = v__3518369_37;
-Obj v__3518370_37 = makeCons(co->gc, v__3517685_37, v__3517686_37);
+Obj v__3519871_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3520560_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520560_37) {
+Obj v__3520561_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520562_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3520561_37);
+if (True == v__3520562_37) {
+Obj v__3520563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520564_37 = PRIM_ISCONS(v__3520563_37);
+if (True == v__3520564_37) {
+Obj v__3520565_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520566_37 = PRIM_CAR(v__3520565_37);
+Obj v__3519884_37 = v__3520566_37;
+Obj v__3520567_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520568_37 = PRIM_CDR(v__3520567_37);
+Obj v__3519885_37 = v__3520568_37;
+Obj v__3520569_37 = makeCons(co->gc, v__3519884_37, v__3519885_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3518370_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3520569_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3519871_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3519871_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517672_37);
+coraCall0(co, v__3519871_37);
 return;
 }
 }
@@ -7013,43 +7013,43 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517673_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3518351_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518351_37) {
-Obj v__3518352_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518353_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3518352_37);
-if (True == v__3518353_37) {
-Obj v__3518354_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518355_37 = PRIM_ISCONS(v__3518354_37);
-if (True == v__3518355_37) {
-Obj v__3518356_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518357_37 = PRIM_CAR(v__3518356_37);
-Obj v__3517684_37 = v__3518357_37;
-Obj v__3518358_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518359_37 = PRIM_CDR(v__3518358_37);
-Obj v__3518360_37 = PRIM_EQ(Nil, v__3518359_37);
-if (True == v__3518360_37) {
+Obj v__3519872_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3520550_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520550_37) {
+Obj v__3520551_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520552_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3520551_37);
+if (True == v__3520552_37) {
+Obj v__3520553_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520554_37 = PRIM_ISCONS(v__3520553_37);
+if (True == v__3520554_37) {
+Obj v__3520555_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520556_37 = PRIM_CAR(v__3520555_37);
+Obj v__3519883_37 = v__3520556_37;
+Obj v__3520557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520558_37 = PRIM_CDR(v__3520557_37);
+Obj v__3520559_37 = PRIM_EQ(Nil, v__3520558_37);
+if (True == v__3520559_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517684_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519883_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3519872_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3519872_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3519872_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517673_37);
+coraCall0(co, v__3519872_37);
 return;
 }
 }
@@ -7060,67 +7060,67 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517674_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3518331_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518331_37) {
-Obj v__3518332_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518333_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3518332_37);
-if (True == v__3518333_37) {
-Obj v__3518334_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518335_37 = PRIM_ISCONS(v__3518334_37);
-if (True == v__3518335_37) {
-Obj v__3518336_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518337_37 = PRIM_CAR(v__3518336_37);
-Obj v__3517682_37 = v__3518337_37;
-Obj v__3518338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518339_37 = PRIM_CDR(v__3518338_37);
-Obj v__3518340_37 = PRIM_ISCONS(v__3518339_37);
-if (True == v__3518340_37) {
-Obj v__3518341_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518342_37 = PRIM_CDR(v__3518341_37);
-Obj v__3518343_37 = PRIM_CAR(v__3518342_37);
-Obj v__3517683_37 = v__3518343_37;
-Obj v__3518344_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518345_37 = PRIM_CDR(v__3518344_37);
-Obj v__3518346_37 = PRIM_CDR(v__3518345_37);
-Obj v__3518347_37 = PRIM_EQ(Nil, v__3518346_37);
-if (True == v__3518347_37) {
-Obj v__3518348_37 = makeCons(co->gc, v__3517683_37, Nil);
-Obj v__3518349_37 = makeCons(co->gc, v__3517682_37, v__3518348_37);
+Obj v__3519873_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3520530_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520530_37) {
+Obj v__3520531_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520532_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520531_37);
+if (True == v__3520532_37) {
+Obj v__3520533_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520534_37 = PRIM_ISCONS(v__3520533_37);
+if (True == v__3520534_37) {
+Obj v__3520535_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520536_37 = PRIM_CAR(v__3520535_37);
+Obj v__3519881_37 = v__3520536_37;
+Obj v__3520537_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520538_37 = PRIM_CDR(v__3520537_37);
+Obj v__3520539_37 = PRIM_ISCONS(v__3520538_37);
+if (True == v__3520539_37) {
+Obj v__3520540_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520541_37 = PRIM_CDR(v__3520540_37);
+Obj v__3520542_37 = PRIM_CAR(v__3520541_37);
+Obj v__3519882_37 = v__3520542_37;
+Obj v__3520543_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520544_37 = PRIM_CDR(v__3520543_37);
+Obj v__3520545_37 = PRIM_CDR(v__3520544_37);
+Obj v__3520546_37 = PRIM_EQ(Nil, v__3520545_37);
+if (True == v__3520546_37) {
+Obj v__3520547_37 = makeCons(co->gc, v__3519882_37, Nil);
+Obj v__3520548_37 = makeCons(co->gc, v__3519881_37, v__3520547_37);
 saveCont(co, clofun37, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518349_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520548_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517674_37);
+coraCall0(co, v__3519873_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518350_37= co->res;
+Obj v__3520549_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518350_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520549_37);
 return;
 }
 }
@@ -7130,43 +7130,43 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517675_37 = makeNative(co->gc, 2, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v__3518321_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518321_37) {
-Obj v__3518322_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518323_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3518322_37);
-if (True == v__3518323_37) {
-Obj v__3518324_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518325_37 = PRIM_ISCONS(v__3518324_37);
-if (True == v__3518325_37) {
-Obj v__3518326_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518327_37 = PRIM_CAR(v__3518326_37);
-Obj v__3517681_37 = v__3518327_37;
-Obj v__3518328_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518329_37 = PRIM_CDR(v__3518328_37);
-Obj v__3518330_37 = PRIM_EQ(Nil, v__3518329_37);
-if (True == v__3518330_37) {
+Obj v__3519874_37 = makeNative(co->gc, 2, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3520520_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520520_37) {
+Obj v__3520521_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520522_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520521_37);
+if (True == v__3520522_37) {
+Obj v__3520523_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520524_37 = PRIM_ISCONS(v__3520523_37);
+if (True == v__3520524_37) {
+Obj v__3520525_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520526_37 = PRIM_CAR(v__3520525_37);
+Obj v__3519880_37 = v__3520526_37;
+Obj v__3520527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520528_37 = PRIM_CDR(v__3520527_37);
+Obj v__3520529_37 = PRIM_EQ(Nil, v__3520528_37);
+if (True == v__3520529_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517681_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519880_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3519874_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3519874_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3519874_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517675_37);
+coraCall0(co, v__3519874_37);
 return;
 }
 }
@@ -7177,67 +7177,67 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517676_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v__3518303_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518303_37) {
-Obj v__3518304_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518305_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3518304_37);
-if (True == v__3518305_37) {
-Obj v__3518306_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518307_37 = PRIM_ISCONS(v__3518306_37);
-if (True == v__3518307_37) {
-Obj v__3518308_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518309_37 = PRIM_CAR(v__3518308_37);
-Obj v__3517679_37 = v__3518309_37;
-Obj v__3518310_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518311_37 = PRIM_CDR(v__3518310_37);
-Obj v__3518312_37 = PRIM_ISCONS(v__3518311_37);
-if (True == v__3518312_37) {
-Obj v__3518313_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518314_37 = PRIM_CDR(v__3518313_37);
-Obj v__3518315_37 = PRIM_CAR(v__3518314_37);
-Obj v__3517680_37 = v__3518315_37;
-Obj v__3518316_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518317_37 = PRIM_CDR(v__3518316_37);
-Obj v__3518318_37 = PRIM_CDR(v__3518317_37);
-Obj v__3518319_37 = PRIM_EQ(Nil, v__3518318_37);
-if (True == v__3518319_37) {
-R[1] = v__3517679_37;
+Obj v__3519875_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
+Obj v__3520502_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520502_37) {
+Obj v__3520503_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520504_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520503_37);
+if (True == v__3520504_37) {
+Obj v__3520505_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520506_37 = PRIM_ISCONS(v__3520505_37);
+if (True == v__3520506_37) {
+Obj v__3520507_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520508_37 = PRIM_CAR(v__3520507_37);
+Obj v__3519878_37 = v__3520508_37;
+Obj v__3520509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520510_37 = PRIM_CDR(v__3520509_37);
+Obj v__3520511_37 = PRIM_ISCONS(v__3520510_37);
+if (True == v__3520511_37) {
+Obj v__3520512_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520513_37 = PRIM_CDR(v__3520512_37);
+Obj v__3520514_37 = PRIM_CAR(v__3520513_37);
+Obj v__3519879_37 = v__3520514_37;
+Obj v__3520515_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520516_37 = PRIM_CDR(v__3520515_37);
+Obj v__3520517_37 = PRIM_CDR(v__3520516_37);
+Obj v__3520518_37 = PRIM_EQ(Nil, v__3520517_37);
+if (True == v__3520518_37) {
+R[1] = v__3519878_37;
 saveCont(co, clofun35, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3517680_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519879_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3519875_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3519875_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3519875_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3519875_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517676_37);
+coraCall0(co, v__3519875_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518320_37= co->res;
-Obj v__3517679_37 = R[1];
+Obj v__3520519_37= co->res;
+Obj v__3519878_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3518320_37, v__3517679_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520519_37, v__3519878_37);
 return;
 }
 }
@@ -7247,15 +7247,15 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518298_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518298_37) {
-Obj v__3518299_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517677_37 = v__3518299_37;
-Obj v__3518300_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517678_37 = v__3518300_37;
-Obj v__3518301_37 = makeCons(co->gc, v__3517677_37, v__3517678_37);
+Obj v__3520497_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520497_37) {
+Obj v__3520498_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519876_37 = v__3520498_37;
+Obj v__3520499_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519877_37 = v__3520499_37;
+Obj v__3520500_37 = makeCons(co->gc, v__3519876_37, v__3519877_37);
 saveCont(co, clofun34, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3518301_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520500_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7265,9 +7265,9 @@ return;
 }
 case 1:
 {
-Obj v__3518302_37= co->res;
+Obj v__3520501_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3518302_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520501_37);
 return;
 }
 }
@@ -7277,42 +7277,42 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517479_37 = R[1];
-Obj v__3517661_37 = makeNative(co->gc, 1, clofun32, 0, 1, v__3517479_37);
-Obj v__3518284_37 = PRIM_ISCONS(v__3517479_37);
-if (True == v__3518284_37) {
-Obj v__3518285_37 = PRIM_CAR(v__3517479_37);
-Obj v__3518286_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3518285_37);
-if (True == v__3518286_37) {
-Obj v__3518287_37 = PRIM_CDR(v__3517479_37);
-Obj v__3518288_37 = PRIM_ISCONS(v__3518287_37);
-if (True == v__3518288_37) {
-Obj v__3518289_37 = PRIM_CDR(v__3517479_37);
-Obj v__3518290_37 = PRIM_CAR(v__3518289_37);
-Obj v__3518291_37 = PRIM_CDR(v__3517479_37);
-Obj v__3518292_37 = PRIM_CDR(v__3518291_37);
-Obj v__3518293_37 = PRIM_EQ(Nil, v__3518292_37);
-if (True == v__3518293_37) {
+Obj v__3519292_37 = R[1];
+Obj v__3519860_37 = makeNative(co->gc, 1, clofun32, 0, 1, v__3519292_37);
+Obj v__3520483_37 = PRIM_ISCONS(v__3519292_37);
+if (True == v__3520483_37) {
+Obj v__3520484_37 = PRIM_CAR(v__3519292_37);
+Obj v__3520485_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3520484_37);
+if (True == v__3520485_37) {
+Obj v__3520486_37 = PRIM_CDR(v__3519292_37);
+Obj v__3520487_37 = PRIM_ISCONS(v__3520486_37);
+if (True == v__3520487_37) {
+Obj v__3520488_37 = PRIM_CDR(v__3519292_37);
+Obj v__3520489_37 = PRIM_CAR(v__3520488_37);
+Obj v__3520490_37 = PRIM_CDR(v__3519292_37);
+Obj v__3520491_37 = PRIM_CDR(v__3520490_37);
+Obj v__3520492_37 = PRIM_EQ(Nil, v__3520491_37);
+if (True == v__3520492_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517661_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517661_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517661_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517661_37);
+coraCall0(co, v__3519860_37);
 return;
 }
 }
@@ -7323,41 +7323,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517662_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj v__3518274_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518274_37) {
-Obj v__3518275_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518276_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3518275_37);
-if (True == v__3518276_37) {
-Obj v__3518277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518278_37 = PRIM_ISCONS(v__3518277_37);
-if (True == v__3518278_37) {
-Obj v__3518279_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518280_37 = PRIM_CAR(v__3518279_37);
-Obj v__3518281_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518282_37 = PRIM_CDR(v__3518281_37);
-Obj v__3518283_37 = PRIM_EQ(Nil, v__3518282_37);
-if (True == v__3518283_37) {
+Obj v__3519861_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3520473_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520473_37) {
+Obj v__3520474_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520475_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520474_37);
+if (True == v__3520475_37) {
+Obj v__3520476_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520477_37 = PRIM_ISCONS(v__3520476_37);
+if (True == v__3520477_37) {
+Obj v__3520478_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520479_37 = PRIM_CAR(v__3520478_37);
+Obj v__3520480_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520481_37 = PRIM_CDR(v__3520480_37);
+Obj v__3520482_37 = PRIM_EQ(Nil, v__3520481_37);
+if (True == v__3520482_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517662_37);
+coraCall0(co, v__3519861_37);
 return;
 }
 }
@@ -7368,41 +7368,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517663_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3518264_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518264_37) {
-Obj v__3518265_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518266_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3518265_37);
-if (True == v__3518266_37) {
-Obj v__3518267_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518268_37 = PRIM_ISCONS(v__3518267_37);
-if (True == v__3518268_37) {
-Obj v__3518269_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518270_37 = PRIM_CAR(v__3518269_37);
-Obj v__3518271_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518272_37 = PRIM_CDR(v__3518271_37);
-Obj v__3518273_37 = PRIM_EQ(Nil, v__3518272_37);
-if (True == v__3518273_37) {
+Obj v__3519862_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3520463_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520463_37) {
+Obj v__3520464_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520465_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520464_37);
+if (True == v__3520465_37) {
+Obj v__3520466_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520467_37 = PRIM_ISCONS(v__3520466_37);
+if (True == v__3520467_37) {
+Obj v__3520468_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520469_37 = PRIM_CAR(v__3520468_37);
+Obj v__3520470_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520471_37 = PRIM_CDR(v__3520470_37);
+Obj v__3520472_37 = PRIM_EQ(Nil, v__3520471_37);
+if (True == v__3520472_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517663_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517663_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517663_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517663_37);
+coraCall0(co, v__3519862_37);
 return;
 }
 }
@@ -7413,41 +7413,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517664_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v__3518254_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518254_37) {
-Obj v__3518255_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518256_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518255_37);
-if (True == v__3518256_37) {
-Obj v__3518257_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518258_37 = PRIM_ISCONS(v__3518257_37);
-if (True == v__3518258_37) {
-Obj v__3518259_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518260_37 = PRIM_CAR(v__3518259_37);
-Obj v__3518261_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518262_37 = PRIM_CDR(v__3518261_37);
-Obj v__3518263_37 = PRIM_EQ(Nil, v__3518262_37);
-if (True == v__3518263_37) {
+Obj v__3519863_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3520453_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520453_37) {
+Obj v__3520454_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520455_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520454_37);
+if (True == v__3520455_37) {
+Obj v__3520456_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520457_37 = PRIM_ISCONS(v__3520456_37);
+if (True == v__3520457_37) {
+Obj v__3520458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520459_37 = PRIM_CAR(v__3520458_37);
+Obj v__3520460_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520461_37 = PRIM_CDR(v__3520460_37);
+Obj v__3520462_37 = PRIM_EQ(Nil, v__3520461_37);
+if (True == v__3520462_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517664_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517664_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517664_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517664_37);
+coraCall0(co, v__3519863_37);
 return;
 }
 }
@@ -7458,41 +7458,41 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517665_37 = makeNative(co->gc, 2, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v__3518244_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518244_37) {
-Obj v__3518245_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518246_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3518245_37);
-if (True == v__3518246_37) {
-Obj v__3518247_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518248_37 = PRIM_ISCONS(v__3518247_37);
-if (True == v__3518248_37) {
-Obj v__3518249_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518250_37 = PRIM_CAR(v__3518249_37);
-Obj v__3518251_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518252_37 = PRIM_CDR(v__3518251_37);
-Obj v__3518253_37 = PRIM_EQ(Nil, v__3518252_37);
-if (True == v__3518253_37) {
+Obj v__3519864_37 = makeNative(co->gc, 2, clofun28, 0, 1, closureRef(R[0], 0));
+Obj v__3520443_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520443_37) {
+Obj v__3520444_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520445_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520444_37);
+if (True == v__3520445_37) {
+Obj v__3520446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520447_37 = PRIM_ISCONS(v__3520446_37);
+if (True == v__3520447_37) {
+Obj v__3520448_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520449_37 = PRIM_CAR(v__3520448_37);
+Obj v__3520450_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520451_37 = PRIM_CDR(v__3520450_37);
+Obj v__3520452_37 = PRIM_EQ(Nil, v__3520451_37);
+if (True == v__3520452_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517665_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517665_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517665_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517665_37);
+coraCall0(co, v__3519864_37);
 return;
 }
 }
@@ -7503,50 +7503,50 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517666_37 = makeNative(co->gc, 1, clofun27, 0, 0);
-Obj v__3518234_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518234_37) {
-Obj v__3518235_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518236_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3518235_37);
-if (True == v__3518236_37) {
-Obj v__3518237_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518238_37 = PRIM_ISCONS(v__3518237_37);
-if (True == v__3518238_37) {
-Obj v__3518239_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518240_37 = PRIM_CAR(v__3518239_37);
-Obj v__3517667_37 = v__3518240_37;
-Obj v__3518241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518242_37 = PRIM_CDR(v__3518241_37);
-R[1] = v__3517666_37;
+Obj v__3519865_37 = makeNative(co->gc, 1, clofun27, 0, 0);
+Obj v__3520433_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520433_37) {
+Obj v__3520434_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520435_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3520434_37);
+if (True == v__3520435_37) {
+Obj v__3520436_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520437_37 = PRIM_ISCONS(v__3520436_37);
+if (True == v__3520437_37) {
+Obj v__3520438_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520439_37 = PRIM_CAR(v__3520438_37);
+Obj v__3519866_37 = v__3520439_37;
+Obj v__3520440_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520441_37 = PRIM_CDR(v__3520440_37);
+R[1] = v__3519865_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3519866_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517666_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517666_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517666_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518243_37= co->res;
-Obj v__3517666_37 = R[1];
-if (True == v__3518243_37) {
+Obj v__3520442_37= co->res;
+Obj v__3519865_37 = R[1];
+if (True == v__3520442_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517666_37);
+coraCall0(co, v__3519865_37);
 return;
 }
 }
@@ -7567,46 +7567,46 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517474_37 = R[1];
-Obj v__3517475_37 = R[2];
-Obj v__3518223_37 = PRIM_EQ(Nil, v__3517474_37);
-if (True == v__3518223_37) {
+Obj v__3519280_37 = R[1];
+Obj v__3519281_37 = R[2];
+Obj v__3520422_37 = PRIM_EQ(Nil, v__3519280_37);
+if (True == v__3520422_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517656_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3517474_37, v__3517475_37);
-Obj v__3518229_37 = PRIM_ISCONS(v__3517474_37);
-if (True == v__3518229_37) {
-Obj v__3518230_37 = PRIM_CAR(v__3517474_37);
-Obj v__3517659_37 = v__3518230_37;
-Obj v__3518231_37 = PRIM_CDR(v__3517474_37);
-Obj v__3517660_37 = v__3518231_37;
-R[1] = v__3517660_37;
-R[2] = v__3517475_37;
-R[3] = v__3517656_37;
+Obj v__3519855_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3519280_37, v__3519281_37);
+Obj v__3520428_37 = PRIM_ISCONS(v__3519280_37);
+if (True == v__3520428_37) {
+Obj v__3520429_37 = PRIM_CAR(v__3519280_37);
+Obj v__3519858_37 = v__3520429_37;
+Obj v__3520430_37 = PRIM_CDR(v__3519280_37);
+Obj v__3519859_37 = v__3520430_37;
+R[1] = v__3519859_37;
+R[2] = v__3519281_37;
+R[3] = v__3519855_37;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517659_37, v__3517475_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519858_37, v__3519281_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517656_37);
+coraCall0(co, v__3519855_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518232_37= co->res;
-Obj v__3517660_37 = R[1];
-Obj v__3517475_37 = R[2];
-Obj v__3517656_37 = R[3];
-if (True == v__3518232_37) {
+Obj v__3520431_37= co->res;
+Obj v__3519859_37 = R[1];
+Obj v__3519281_37 = R[2];
+Obj v__3519855_37 = R[3];
+if (True == v__3520431_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517660_37, v__3517475_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519859_37, v__3519281_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517656_37);
+coraCall0(co, v__3519855_37);
 return;
 }
 }
@@ -7617,15 +7617,15 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518224_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518224_37) {
-Obj v__3518225_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517657_37 = v__3518225_37;
-Obj v__3518226_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517658_37 = v__3518226_37;
-R[1] = v__3517657_37;
+Obj v__3520423_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520423_37) {
+Obj v__3520424_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519856_37 = v__3520424_37;
+Obj v__3520425_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519857_37 = v__3520425_37;
+R[1] = v__3519856_37;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3517658_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519857_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7635,10 +7635,10 @@ return;
 }
 case 1:
 {
-Obj v__3518227_37= co->res;
-Obj v__3517657_37 = R[1];
-Obj v__3518228_37 = makeCons(co->gc, v__3517657_37, v__3518227_37);
-coraReturn(co, v__3518228_37);
+Obj v__3520426_37= co->res;
+Obj v__3519856_37 = R[1];
+Obj v__3520427_37 = makeCons(co->gc, v__3519856_37, v__3520426_37);
+coraReturn(co, v__3520427_37);
 return;
 }
 }
@@ -7648,46 +7648,46 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517469_37 = R[1];
-Obj v__3517470_37 = R[2];
-Obj v__3518212_37 = PRIM_EQ(Nil, v__3517469_37);
-if (True == v__3518212_37) {
-coraReturn(co, v__3517470_37);
+Obj v__3519268_37 = R[1];
+Obj v__3519269_37 = R[2];
+Obj v__3520411_37 = PRIM_EQ(Nil, v__3519268_37);
+if (True == v__3520411_37) {
+coraReturn(co, v__3519269_37);
 return;
 } else {
-Obj v__3517651_37 = makeNative(co->gc, 2, clofun23, 0, 2, v__3517469_37, v__3517470_37);
-Obj v__3518218_37 = PRIM_ISCONS(v__3517469_37);
-if (True == v__3518218_37) {
-Obj v__3518219_37 = PRIM_CAR(v__3517469_37);
-Obj v__3517654_37 = v__3518219_37;
-Obj v__3518220_37 = PRIM_CDR(v__3517469_37);
-Obj v__3517655_37 = v__3518220_37;
-R[1] = v__3517655_37;
-R[2] = v__3517470_37;
-R[3] = v__3517651_37;
+Obj v__3519850_37 = makeNative(co->gc, 2, clofun23, 0, 2, v__3519268_37, v__3519269_37);
+Obj v__3520417_37 = PRIM_ISCONS(v__3519268_37);
+if (True == v__3520417_37) {
+Obj v__3520418_37 = PRIM_CAR(v__3519268_37);
+Obj v__3519853_37 = v__3520418_37;
+Obj v__3520419_37 = PRIM_CDR(v__3519268_37);
+Obj v__3519854_37 = v__3520419_37;
+R[1] = v__3519854_37;
+R[2] = v__3519269_37;
+R[3] = v__3519850_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3517654_37, v__3517470_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519853_37, v__3519269_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517651_37);
+coraCall0(co, v__3519850_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518221_37= co->res;
-Obj v__3517655_37 = R[1];
-Obj v__3517470_37 = R[2];
-Obj v__3517651_37 = R[3];
-if (True == v__3518221_37) {
+Obj v__3520420_37= co->res;
+Obj v__3519854_37 = R[1];
+Obj v__3519269_37 = R[2];
+Obj v__3519850_37 = R[3];
+if (True == v__3520420_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517655_37, v__3517470_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519854_37, v__3519269_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517651_37);
+coraCall0(co, v__3519850_37);
 return;
 }
 }
@@ -7698,15 +7698,15 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3518213_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518213_37) {
-Obj v__3518214_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517652_37 = v__3518214_37;
-Obj v__3518215_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517653_37 = v__3518215_37;
-R[1] = v__3517652_37;
+Obj v__3520412_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520412_37) {
+Obj v__3520413_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519851_37 = v__3520413_37;
+Obj v__3520414_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519852_37 = v__3520414_37;
+R[1] = v__3519851_37;
 saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3517653_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519852_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7716,10 +7716,10 @@ return;
 }
 case 1:
 {
-Obj v__3518216_37= co->res;
-Obj v__3517652_37 = R[1];
-Obj v__3518217_37 = makeCons(co->gc, v__3517652_37, v__3518216_37);
-coraReturn(co, v__3518217_37);
+Obj v__3520415_37= co->res;
+Obj v__3519851_37 = R[1];
+Obj v__3520416_37 = makeCons(co->gc, v__3519851_37, v__3520415_37);
+coraReturn(co, v__3520416_37);
 return;
 }
 }
@@ -7729,66 +7729,66 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517455_37 = R[1];
-Obj v__3517456_37 = R[2];
-Obj v__3517457_37 = R[3];
-Obj v__3517616_37 = makeNative(co->gc, 2, clofun21, 1, 3, v__3517457_37, v__3517455_37, v__3517456_37);
-R[1] = v__3517457_37;
-R[2] = v__3517616_37;
+Obj v__3519172_37 = R[1];
+Obj v__3519173_37 = R[2];
+Obj v__3519174_37 = R[3];
+Obj v__3519815_37 = makeNative(co->gc, 2, clofun21, 1, 3, v__3519174_37, v__3519172_37, v__3519173_37);
+R[1] = v__3519174_37;
+R[2] = v__3519815_37;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3517457_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3519174_37);
 return;
 }
 case 1:
 {
-Obj v__3518210_37= co->res;
-Obj v__3517616_37 = R[1];
-if (True == v__3518210_37) {
+Obj v__3520409_37= co->res;
+Obj v__3519815_37 = R[1];
+if (True == v__3520409_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517616_37, True);
+coraCall1(co, v__3519815_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517616_37, False);
+coraCall1(co, v__3519815_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518209_37= co->res;
-Obj v__3517457_37 = R[1];
-Obj v__3517616_37 = R[2];
-if (True == v__3518209_37) {
+Obj v__3520408_37= co->res;
+Obj v__3519174_37 = R[1];
+Obj v__3519815_37 = R[2];
+if (True == v__3520408_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517616_37, True);
+coraCall1(co, v__3519815_37, True);
 return;
 } else {
-R[1] = v__3517616_37;
+R[1] = v__3519815_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517457_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519174_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3518207_37= co->res;
-Obj v__3517457_37 = R[1];
-Obj v__3517616_37 = R[2];
-if (True == v__3518207_37) {
+Obj v__3520406_37= co->res;
+Obj v__3519174_37 = R[1];
+Obj v__3519815_37 = R[2];
+if (True == v__3520406_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517616_37, True);
+coraCall1(co, v__3519815_37, True);
 return;
 } else {
-Obj v__3518208_37 = primIsString(v__3517457_37);
-if (True == v__3518208_37) {
+Obj v__3520407_37 = primIsString(v__3519174_37);
+if (True == v__3520407_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517616_37, True);
+coraCall1(co, v__3519815_37, True);
 return;
 } else {
-R[1] = v__3517457_37;
-R[2] = v__3517616_37;
+R[1] = v__3519174_37;
+R[2] = v__3519815_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3517457_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519174_37);
 return;
 }
 }
@@ -7800,86 +7800,86 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517615_37 = R[1];
-if (True == v__3517615_37) {
-Obj v__3517997_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3517998_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3517997_37);
-coraReturn(co, v__3517998_37);
-return;
-} else {
-Obj v__3517617_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518181_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518181_37) {
-Obj v__3518182_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518183_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3518182_37);
-if (True == v__3518183_37) {
-Obj v__3518184_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518185_37 = PRIM_ISCONS(v__3518184_37);
-if (True == v__3518185_37) {
-Obj v__3518186_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518187_37 = PRIM_CAR(v__3518186_37);
-Obj v__3517650_37 = v__3518187_37;
-Obj v__3518188_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518189_37 = PRIM_CDR(v__3518188_37);
-Obj v__3518190_37 = PRIM_EQ(Nil, v__3518189_37);
-if (True == v__3518190_37) {
-Obj v__3518191_37 = primIsSymbol(v__3517650_37);
-if (True == v__3518191_37) {
-R[1] = v__3517650_37;
+Obj v__3519814_37 = R[1];
+if (True == v__3519814_37) {
+Obj v__3520196_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520197_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3520196_37);
+coraReturn(co, v__3520197_37);
+return;
+} else {
+Obj v__3519816_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520380_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520380_37) {
+Obj v__3520381_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520382_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520381_37);
+if (True == v__3520382_37) {
+Obj v__3520383_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520384_37 = PRIM_ISCONS(v__3520383_37);
+if (True == v__3520384_37) {
+Obj v__3520385_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520386_37 = PRIM_CAR(v__3520385_37);
+Obj v__3519849_37 = v__3520386_37;
+Obj v__3520387_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520388_37 = PRIM_CDR(v__3520387_37);
+Obj v__3520389_37 = PRIM_EQ(Nil, v__3520388_37);
+if (True == v__3520389_37) {
+Obj v__3520390_37 = primIsSymbol(v__3519849_37);
+if (True == v__3520390_37) {
+R[1] = v__3519849_37;
 saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3517650_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3519849_37, closureRef(R[0], 2));
 return;
 } else {
-Obj v__3518195_37 = PRIM_ISCONS(v__3517650_37);
-if (True == v__3518195_37) {
-Obj v__3518196_37 = PRIM_CAR(v__3517650_37);
-Obj v__3518197_37 = makeCons(co->gc, v__3518196_37, Nil);
-Obj v__3518198_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518197_37);
-Obj v__3518199_37 = PRIM_CDR(v__3517650_37);
-Obj v__3518200_37 = makeCons(co->gc, v__3518199_37, Nil);
-Obj v__3518201_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3518200_37);
-Obj v__3518202_37 = makeCons(co->gc, v__3518201_37, Nil);
-Obj v__3518203_37 = makeCons(co->gc, v__3518198_37, v__3518202_37);
-Obj v__3518204_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3518203_37);
+Obj v__3520394_37 = PRIM_ISCONS(v__3519849_37);
+if (True == v__3520394_37) {
+Obj v__3520395_37 = PRIM_CAR(v__3519849_37);
+Obj v__3520396_37 = makeCons(co->gc, v__3520395_37, Nil);
+Obj v__3520397_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520396_37);
+Obj v__3520398_37 = PRIM_CDR(v__3519849_37);
+Obj v__3520399_37 = makeCons(co->gc, v__3520398_37, Nil);
+Obj v__3520400_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520399_37);
+Obj v__3520401_37 = makeCons(co->gc, v__3520400_37, Nil);
+Obj v__3520402_37 = makeCons(co->gc, v__3520397_37, v__3520401_37);
+Obj v__3520403_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520402_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518204_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520403_37);
 return;
 } else {
-Obj v__3518205_37 = makeCons(co->gc, v__3517650_37, Nil);
-Obj v__3518206_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518205_37);
-coraReturn(co, v__3518206_37);
+Obj v__3520404_37 = makeCons(co->gc, v__3519849_37, Nil);
+Obj v__3520405_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3520404_37);
+coraReturn(co, v__3520405_37);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3519816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3519816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3519816_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517617_37);
+coraCall0(co, v__3519816_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518192_37= co->res;
-Obj v__3517650_37 = R[1];
-Obj v__3518193_37 = makeCons(co->gc, v__3517650_37, Nil);
-Obj v__3518194_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3518193_37);
-coraReturn(co, v__3518194_37);
+Obj v__3520391_37= co->res;
+Obj v__3519849_37 = R[1];
+Obj v__3520392_37 = makeCons(co->gc, v__3519849_37, Nil);
+Obj v__3520393_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3520392_37);
+coraReturn(co, v__3520393_37);
 return;
 }
 }
@@ -7889,85 +7889,85 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517999_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3517999_37) {
+Obj v__3520198_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3520198_37) {
 saveCont(co, clofun20, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3517619_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518157_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518157_37) {
-Obj v__3518158_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518159_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518158_37);
-if (True == v__3518159_37) {
-Obj v__3518160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518161_37 = PRIM_ISCONS(v__3518160_37);
-if (True == v__3518161_37) {
-Obj v__3518162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518163_37 = PRIM_CAR(v__3518162_37);
-Obj v__3517648_37 = v__3518163_37;
-Obj v__3518164_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518165_37 = PRIM_CDR(v__3518164_37);
-Obj v__3518166_37 = PRIM_ISCONS(v__3518165_37);
-if (True == v__3518166_37) {
-Obj v__3518167_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518168_37 = PRIM_CDR(v__3518167_37);
-Obj v__3518169_37 = PRIM_CAR(v__3518168_37);
-Obj v__3517649_37 = v__3518169_37;
-Obj v__3518170_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518171_37 = PRIM_CDR(v__3518170_37);
-Obj v__3518172_37 = PRIM_CDR(v__3518171_37);
-Obj v__3518173_37 = PRIM_EQ(Nil, v__3518172_37);
-if (True == v__3518173_37) {
-R[1] = v__3517649_37;
-R[2] = v__3517648_37;
+Obj v__3519818_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520356_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520356_37) {
+Obj v__3520357_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520358_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520357_37);
+if (True == v__3520358_37) {
+Obj v__3520359_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520360_37 = PRIM_ISCONS(v__3520359_37);
+if (True == v__3520360_37) {
+Obj v__3520361_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520362_37 = PRIM_CAR(v__3520361_37);
+Obj v__3519847_37 = v__3520362_37;
+Obj v__3520363_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520364_37 = PRIM_CDR(v__3520363_37);
+Obj v__3520365_37 = PRIM_ISCONS(v__3520364_37);
+if (True == v__3520365_37) {
+Obj v__3520366_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520367_37 = PRIM_CDR(v__3520366_37);
+Obj v__3520368_37 = PRIM_CAR(v__3520367_37);
+Obj v__3519848_37 = v__3520368_37;
+Obj v__3520369_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520370_37 = PRIM_CDR(v__3520369_37);
+Obj v__3520371_37 = PRIM_CDR(v__3520370_37);
+Obj v__3520372_37 = PRIM_EQ(Nil, v__3520371_37);
+if (True == v__3520372_37) {
+R[1] = v__3519848_37;
+R[2] = v__3519847_37;
 saveCont(co, clofun20, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), v__3517648_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), v__3519847_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517619_37);
+coraCall0(co, v__3519818_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3518003_37= co->res;
-Obj v__3518004_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3518005_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3518004_37);
-coraReturn(co, v__3518005_37);
+Obj v__3520202_37= co->res;
+Obj v__3520203_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520204_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520203_37);
+coraReturn(co, v__3520204_37);
 return;
 }
 case 2:
 {
-Obj v__3518000_37= co->res;
-Obj v__3517618_37 = v__3518000_37;
-Obj v__3518001_37 = PRIM_ISCONS(v__3517618_37);
-if (True == v__3518001_37) {
-Obj v__3518002_37 = PRIM_CDR(v__3517618_37);
-coraReturn(co, v__3518002_37);
+Obj v__3520199_37= co->res;
+Obj v__3519817_37 = v__3520199_37;
+Obj v__3520200_37 = PRIM_ISCONS(v__3519817_37);
+if (True == v__3520200_37) {
+Obj v__3520201_37 = PRIM_CDR(v__3519817_37);
+coraReturn(co, v__3520201_37);
 return;
 } else {
 saveCont(co, clofun20, 1, R);
@@ -7977,33 +7977,33 @@ return;
 }
 case 3:
 {
-Obj v__3518177_37= co->res;
-Obj v__3517648_37 = R[1];
-Obj v__3518178_37 = makeCons(co->gc, v__3518177_37, Nil);
-Obj v__3518179_37 = makeCons(co->gc, v__3517648_37, v__3518178_37);
-Obj v__3518180_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518179_37);
-coraReturn(co, v__3518180_37);
+Obj v__3520376_37= co->res;
+Obj v__3519847_37 = R[1];
+Obj v__3520377_37 = makeCons(co->gc, v__3520376_37, Nil);
+Obj v__3520378_37 = makeCons(co->gc, v__3519847_37, v__3520377_37);
+Obj v__3520379_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520378_37);
+coraReturn(co, v__3520379_37);
 return;
 }
 case 4:
 {
-Obj v__3518176_37= co->res;
-Obj v__3517649_37 = R[1];
-Obj v__3517648_37 = R[2];
-R[1] = v__3517648_37;
+Obj v__3520375_37= co->res;
+Obj v__3519848_37 = R[1];
+Obj v__3519847_37 = R[2];
+R[1] = v__3519847_37;
 saveCont(co, clofun20, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518176_37, closureRef(R[0], 2), v__3517649_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3520375_37, closureRef(R[0], 2), v__3519848_37);
 return;
 }
 case 5:
 {
-Obj v__3518175_37= co->res;
-Obj v__3517649_37 = R[1];
-Obj v__3517648_37 = R[2];
-R[1] = v__3517649_37;
-R[2] = v__3517648_37;
+Obj v__3520374_37= co->res;
+Obj v__3519848_37 = R[1];
+Obj v__3519847_37 = R[2];
+R[1] = v__3519848_37;
+R[2] = v__3519847_37;
 saveCont(co, clofun20, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518175_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520374_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -8013,9 +8013,9 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v__3518174_37 = makeCons(co->gc, v_x, v_x);
-coraReturn(co, v__3518174_37);
+Obj v__3519265_37 = R[1];
+Obj v__3520373_37 = makeCons(co->gc, v__3519265_37, v__3519265_37);
+coraReturn(co, v__3520373_37);
 return;
 }
 }
@@ -8025,74 +8025,74 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517620_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518125_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518125_37) {
-Obj v__3518126_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518127_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518126_37);
-if (True == v__3518127_37) {
-Obj v__3518128_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518129_37 = PRIM_ISCONS(v__3518128_37);
-if (True == v__3518129_37) {
-Obj v__3518130_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518131_37 = PRIM_CAR(v__3518130_37);
-Obj v__3518132_37 = PRIM_ISCONS(v__3518131_37);
-if (True == v__3518132_37) {
-Obj v__3518133_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518134_37 = PRIM_CAR(v__3518133_37);
-Obj v__3518135_37 = PRIM_CAR(v__3518134_37);
-Obj v__3518136_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518135_37);
-if (True == v__3518136_37) {
-Obj v__3518137_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518138_37 = PRIM_CAR(v__3518137_37);
-Obj v__3518139_37 = PRIM_CDR(v__3518138_37);
-Obj v__3517644_37 = v__3518139_37;
-Obj v__3518140_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518141_37 = PRIM_CDR(v__3518140_37);
-Obj v__3517645_37 = v__3518141_37;
-Obj v__3518142_37 = primGenSym(co);
-Obj v__3517646_37 = v__3518142_37;
-Obj v__3518143_37 = primGenSym(co);
-Obj v__3517647_37 = v__3518143_37;
-Obj v__3518144_37 = makeCons(co->gc, v__3517647_37, Nil);
-Obj v__3518145_37 = makeCons(co->gc, v__3517647_37, v__3517645_37);
-Obj v__3518146_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518145_37);
-Obj v__3518147_37 = makeCons(co->gc, v__3518146_37, Nil);
-Obj v__3518148_37 = makeCons(co->gc, v__3518144_37, v__3518147_37);
-Obj v__3518149_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518148_37);
-Obj v__3518150_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517644_37);
-Obj v__3518151_37 = makeCons(co->gc, v__3518150_37, Nil);
-Obj v__3518152_37 = makeCons(co->gc, v__3517646_37, v__3518151_37);
-Obj v__3518153_37 = makeCons(co->gc, v__3518152_37, Nil);
-Obj v__3518154_37 = makeCons(co->gc, v__3518149_37, v__3518153_37);
-Obj v__3518155_37 = makeCons(co->gc, v__3517646_37, v__3518154_37);
-Obj v__3518156_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518155_37);
+Obj v__3519819_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520324_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520324_37) {
+Obj v__3520325_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520326_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520325_37);
+if (True == v__3520326_37) {
+Obj v__3520327_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520328_37 = PRIM_ISCONS(v__3520327_37);
+if (True == v__3520328_37) {
+Obj v__3520329_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520330_37 = PRIM_CAR(v__3520329_37);
+Obj v__3520331_37 = PRIM_ISCONS(v__3520330_37);
+if (True == v__3520331_37) {
+Obj v__3520332_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520333_37 = PRIM_CAR(v__3520332_37);
+Obj v__3520334_37 = PRIM_CAR(v__3520333_37);
+Obj v__3520335_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520334_37);
+if (True == v__3520335_37) {
+Obj v__3520336_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520337_37 = PRIM_CAR(v__3520336_37);
+Obj v__3520338_37 = PRIM_CDR(v__3520337_37);
+Obj v__3519843_37 = v__3520338_37;
+Obj v__3520339_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520340_37 = PRIM_CDR(v__3520339_37);
+Obj v__3519844_37 = v__3520340_37;
+Obj v__3520341_37 = primGenSym(co);
+Obj v__3519845_37 = v__3520341_37;
+Obj v__3520342_37 = primGenSym(co);
+Obj v__3519846_37 = v__3520342_37;
+Obj v__3520343_37 = makeCons(co->gc, v__3519846_37, Nil);
+Obj v__3520344_37 = makeCons(co->gc, v__3519846_37, v__3519844_37);
+Obj v__3520345_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520344_37);
+Obj v__3520346_37 = makeCons(co->gc, v__3520345_37, Nil);
+Obj v__3520347_37 = makeCons(co->gc, v__3520343_37, v__3520346_37);
+Obj v__3520348_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520347_37);
+Obj v__3520349_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3519843_37);
+Obj v__3520350_37 = makeCons(co->gc, v__3520349_37, Nil);
+Obj v__3520351_37 = makeCons(co->gc, v__3519845_37, v__3520350_37);
+Obj v__3520352_37 = makeCons(co->gc, v__3520351_37, Nil);
+Obj v__3520353_37 = makeCons(co->gc, v__3520348_37, v__3520352_37);
+Obj v__3520354_37 = makeCons(co->gc, v__3519845_37, v__3520353_37);
+Obj v__3520355_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520354_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518156_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520355_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517620_37);
+coraCall0(co, v__3519819_37);
 return;
 }
 }
@@ -8103,42 +8103,42 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517621_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518118_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518118_37) {
-Obj v__3518119_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518120_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518119_37);
-if (True == v__3518120_37) {
-Obj v__3518121_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517643_37 = v__3518121_37;
-R[1] = v__3517643_37;
+Obj v__3519820_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520317_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520317_37) {
+Obj v__3520318_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520319_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520318_37);
+if (True == v__3520319_37) {
+Obj v__3520320_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519842_37 = v__3520320_37;
+R[1] = v__3519842_37;
 saveCont(co, clofun17, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517621_37);
+coraCall0(co, v__3519820_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518123_37= co->res;
-Obj v__3518124_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3518123_37);
-coraReturn(co, v__3518124_37);
+Obj v__3520322_37= co->res;
+Obj v__3520323_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520322_37);
+coraReturn(co, v__3520323_37);
 return;
 }
 case 2:
 {
-Obj v__3518122_37= co->res;
-Obj v__3517643_37 = R[1];
+Obj v__3520321_37= co->res;
+Obj v__3519842_37 = R[1];
 saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518122_37, v__3517643_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520321_37, v__3519842_37);
 return;
 }
 }
@@ -8148,78 +8148,78 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517622_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518096_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518096_37) {
-Obj v__3518097_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518098_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3518097_37);
-if (True == v__3518098_37) {
-Obj v__3518099_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518100_37 = PRIM_ISCONS(v__3518099_37);
-if (True == v__3518100_37) {
-Obj v__3518101_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518102_37 = PRIM_CAR(v__3518101_37);
-Obj v__3517641_37 = v__3518102_37;
-Obj v__3518103_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518104_37 = PRIM_CDR(v__3518103_37);
-Obj v__3518105_37 = PRIM_ISCONS(v__3518104_37);
-if (True == v__3518105_37) {
-Obj v__3518106_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518107_37 = PRIM_CDR(v__3518106_37);
-Obj v__3518108_37 = PRIM_CAR(v__3518107_37);
-Obj v__3517642_37 = v__3518108_37;
-Obj v__3518109_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518110_37 = PRIM_CDR(v__3518109_37);
-Obj v__3518111_37 = PRIM_CDR(v__3518110_37);
-Obj v__3518112_37 = PRIM_EQ(Nil, v__3518111_37);
-if (True == v__3518112_37) {
-R[1] = v__3517642_37;
+Obj v__3519821_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520295_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520295_37) {
+Obj v__3520296_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520297_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520296_37);
+if (True == v__3520297_37) {
+Obj v__3520298_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520299_37 = PRIM_ISCONS(v__3520298_37);
+if (True == v__3520299_37) {
+Obj v__3520300_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520301_37 = PRIM_CAR(v__3520300_37);
+Obj v__3519840_37 = v__3520301_37;
+Obj v__3520302_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520303_37 = PRIM_CDR(v__3520302_37);
+Obj v__3520304_37 = PRIM_ISCONS(v__3520303_37);
+if (True == v__3520304_37) {
+Obj v__3520305_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520306_37 = PRIM_CDR(v__3520305_37);
+Obj v__3520307_37 = PRIM_CAR(v__3520306_37);
+Obj v__3519841_37 = v__3520307_37;
+Obj v__3520308_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520309_37 = PRIM_CDR(v__3520308_37);
+Obj v__3520310_37 = PRIM_CDR(v__3520309_37);
+Obj v__3520311_37 = PRIM_EQ(Nil, v__3520310_37);
+if (True == v__3520311_37) {
+R[1] = v__3519841_37;
 saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517641_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519840_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3519821_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3519821_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3519821_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3519821_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517622_37);
+coraCall0(co, v__3519821_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518114_37= co->res;
-Obj v__3518113_37 = R[1];
-Obj v__3518115_37 = makeCons(co->gc, v__3518114_37, Nil);
-Obj v__3518116_37 = makeCons(co->gc, v__3518113_37, v__3518115_37);
-Obj v__3518117_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3518116_37);
-coraReturn(co, v__3518117_37);
+Obj v__3520313_37= co->res;
+Obj v__3520312_37 = R[1];
+Obj v__3520314_37 = makeCons(co->gc, v__3520313_37, Nil);
+Obj v__3520315_37 = makeCons(co->gc, v__3520312_37, v__3520314_37);
+Obj v__3520316_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520315_37);
+coraReturn(co, v__3520316_37);
 return;
 }
 case 2:
 {
-Obj v__3518113_37= co->res;
-Obj v__3517642_37 = R[1];
-R[1] = v__3518113_37;
+Obj v__3520312_37= co->res;
+Obj v__3519841_37 = R[1];
+R[1] = v__3520312_37;
 saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517642_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519841_37);
 return;
 }
 }
@@ -8229,105 +8229,105 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517623_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3518061_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518061_37) {
-Obj v__3518062_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518063_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3518062_37);
-if (True == v__3518063_37) {
-Obj v__3518064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518065_37 = PRIM_ISCONS(v__3518064_37);
-if (True == v__3518065_37) {
-Obj v__3518066_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518067_37 = PRIM_CAR(v__3518066_37);
-Obj v__3517637_37 = v__3518067_37;
-Obj v__3518068_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518069_37 = PRIM_CDR(v__3518068_37);
-Obj v__3518070_37 = PRIM_ISCONS(v__3518069_37);
-if (True == v__3518070_37) {
-Obj v__3518071_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518072_37 = PRIM_CDR(v__3518071_37);
-Obj v__3518073_37 = PRIM_CAR(v__3518072_37);
-Obj v__3517638_37 = v__3518073_37;
-Obj v__3518074_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518075_37 = PRIM_CDR(v__3518074_37);
-Obj v__3518076_37 = PRIM_CDR(v__3518075_37);
-Obj v__3518077_37 = PRIM_ISCONS(v__3518076_37);
-if (True == v__3518077_37) {
-Obj v__3518078_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518079_37 = PRIM_CDR(v__3518078_37);
-Obj v__3518080_37 = PRIM_CDR(v__3518079_37);
-Obj v__3518081_37 = PRIM_CAR(v__3518080_37);
-Obj v__3517639_37 = v__3518081_37;
-Obj v__3518082_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518083_37 = PRIM_CDR(v__3518082_37);
-Obj v__3518084_37 = PRIM_CDR(v__3518083_37);
-Obj v__3518085_37 = PRIM_CDR(v__3518084_37);
-Obj v__3518086_37 = PRIM_EQ(Nil, v__3518085_37);
-if (True == v__3518086_37) {
-Obj v__3518087_37 = primGenSym(co);
-Obj v__3517640_37 = v__3518087_37;
-R[1] = v__3517637_37;
-R[2] = v__3517639_37;
-R[3] = v__3517640_37;
+Obj v__3519822_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520260_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520260_37) {
+Obj v__3520261_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520262_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520261_37);
+if (True == v__3520262_37) {
+Obj v__3520263_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520264_37 = PRIM_ISCONS(v__3520263_37);
+if (True == v__3520264_37) {
+Obj v__3520265_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520266_37 = PRIM_CAR(v__3520265_37);
+Obj v__3519836_37 = v__3520266_37;
+Obj v__3520267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520268_37 = PRIM_CDR(v__3520267_37);
+Obj v__3520269_37 = PRIM_ISCONS(v__3520268_37);
+if (True == v__3520269_37) {
+Obj v__3520270_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520271_37 = PRIM_CDR(v__3520270_37);
+Obj v__3520272_37 = PRIM_CAR(v__3520271_37);
+Obj v__3519837_37 = v__3520272_37;
+Obj v__3520273_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520274_37 = PRIM_CDR(v__3520273_37);
+Obj v__3520275_37 = PRIM_CDR(v__3520274_37);
+Obj v__3520276_37 = PRIM_ISCONS(v__3520275_37);
+if (True == v__3520276_37) {
+Obj v__3520277_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520278_37 = PRIM_CDR(v__3520277_37);
+Obj v__3520279_37 = PRIM_CDR(v__3520278_37);
+Obj v__3520280_37 = PRIM_CAR(v__3520279_37);
+Obj v__3519838_37 = v__3520280_37;
+Obj v__3520281_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520282_37 = PRIM_CDR(v__3520281_37);
+Obj v__3520283_37 = PRIM_CDR(v__3520282_37);
+Obj v__3520284_37 = PRIM_CDR(v__3520283_37);
+Obj v__3520285_37 = PRIM_EQ(Nil, v__3520284_37);
+if (True == v__3520285_37) {
+Obj v__3520286_37 = primGenSym(co);
+Obj v__3519839_37 = v__3520286_37;
+R[1] = v__3519836_37;
+R[2] = v__3519838_37;
+R[3] = v__3519839_37;
 saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3517638_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519837_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3519822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3519822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3519822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3519822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3519822_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517623_37);
+coraCall0(co, v__3519822_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518091_37= co->res;
-Obj v__3518088_37 = R[1];
-Obj v__3517640_37 = R[2];
-Obj v__3518092_37 = makeCons(co->gc, v__3518091_37, Nil);
-Obj v__3518093_37 = makeCons(co->gc, v__3518088_37, v__3518092_37);
-Obj v__3518094_37 = makeCons(co->gc, v__3517640_37, v__3518093_37);
-Obj v__3518095_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518094_37);
-coraReturn(co, v__3518095_37);
+Obj v__3520290_37= co->res;
+Obj v__3520287_37 = R[1];
+Obj v__3519839_37 = R[2];
+Obj v__3520291_37 = makeCons(co->gc, v__3520290_37, Nil);
+Obj v__3520292_37 = makeCons(co->gc, v__3520287_37, v__3520291_37);
+Obj v__3520293_37 = makeCons(co->gc, v__3519839_37, v__3520292_37);
+Obj v__3520294_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520293_37);
+coraReturn(co, v__3520294_37);
 return;
 }
 case 2:
 {
-Obj v__3518088_37= co->res;
-Obj v__3517637_37 = R[1];
-Obj v__3517639_37 = R[2];
-Obj v__3517640_37 = R[3];
-Obj v__3518089_37 = makeCons(co->gc, v__3517637_37, v__3517640_37);
-Obj v__3518090_37 = makeCons(co->gc, v__3518089_37, closureRef(R[0], 1));
-R[1] = v__3518088_37;
-R[2] = v__3517640_37;
+Obj v__3520287_37= co->res;
+Obj v__3519836_37 = R[1];
+Obj v__3519838_37 = R[2];
+Obj v__3519839_37 = R[3];
+Obj v__3520288_37 = makeCons(co->gc, v__3519836_37, v__3519839_37);
+Obj v__3520289_37 = makeCons(co->gc, v__3520288_37, closureRef(R[0], 1));
+R[1] = v__3520287_37;
+R[2] = v__3519839_37;
 saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3518090_37, closureRef(R[0], 2), v__3517639_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3520289_37, closureRef(R[0], 2), v__3519838_37);
 return;
 }
 }
@@ -8337,85 +8337,85 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517624_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
-Obj v__3518029_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518029_37) {
-Obj v__3518030_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518031_37 = PRIM_ISCONS(v__3518030_37);
-if (True == v__3518031_37) {
-Obj v__3518032_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518033_37 = PRIM_CAR(v__3518032_37);
-Obj v__3518034_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3518033_37);
-if (True == v__3518034_37) {
-Obj v__3518035_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3518036_37 = PRIM_CDR(v__3518035_37);
-Obj v__3517634_37 = v__3518036_37;
-Obj v__3518037_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518038_37 = PRIM_ISCONS(v__3518037_37);
-if (True == v__3518038_37) {
-Obj v__3518039_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518040_37 = PRIM_CAR(v__3518039_37);
-Obj v__3518041_37 = PRIM_ISCONS(v__3518040_37);
-if (True == v__3518041_37) {
-Obj v__3518042_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518043_37 = PRIM_CAR(v__3518042_37);
-Obj v__3518044_37 = PRIM_CAR(v__3518043_37);
-Obj v__3518045_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3518044_37);
-if (True == v__3518045_37) {
-Obj v__3518046_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518047_37 = PRIM_CAR(v__3518046_37);
-Obj v__3518048_37 = PRIM_CDR(v__3518047_37);
-Obj v__3517635_37 = v__3518048_37;
-Obj v__3518049_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3518050_37 = PRIM_CDR(v__3518049_37);
-Obj v__3518051_37 = PRIM_EQ(Nil, v__3518050_37);
-if (True == v__3518051_37) {
-Obj v__3518052_37 = primGenSym(co);
-Obj v__3517636_37 = v__3518052_37;
-Obj v__3518053_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3517634_37);
-Obj v__3518054_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3517635_37);
-Obj v__3518055_37 = makeCons(co->gc, v__3518054_37, Nil);
-Obj v__3518056_37 = makeCons(co->gc, v__3517636_37, v__3518055_37);
-Obj v__3518057_37 = makeCons(co->gc, v__3518056_37, Nil);
-Obj v__3518058_37 = makeCons(co->gc, v__3518053_37, v__3518057_37);
-Obj v__3518059_37 = makeCons(co->gc, v__3517636_37, v__3518058_37);
-Obj v__3518060_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3518059_37);
+Obj v__3519823_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj v__3520228_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520228_37) {
+Obj v__3520229_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520230_37 = PRIM_ISCONS(v__3520229_37);
+if (True == v__3520230_37) {
+Obj v__3520231_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520232_37 = PRIM_CAR(v__3520231_37);
+Obj v__3520233_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520232_37);
+if (True == v__3520233_37) {
+Obj v__3520234_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520235_37 = PRIM_CDR(v__3520234_37);
+Obj v__3519833_37 = v__3520235_37;
+Obj v__3520236_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520237_37 = PRIM_ISCONS(v__3520236_37);
+if (True == v__3520237_37) {
+Obj v__3520238_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520239_37 = PRIM_CAR(v__3520238_37);
+Obj v__3520240_37 = PRIM_ISCONS(v__3520239_37);
+if (True == v__3520240_37) {
+Obj v__3520241_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520242_37 = PRIM_CAR(v__3520241_37);
+Obj v__3520243_37 = PRIM_CAR(v__3520242_37);
+Obj v__3520244_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520243_37);
+if (True == v__3520244_37) {
+Obj v__3520245_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520246_37 = PRIM_CAR(v__3520245_37);
+Obj v__3520247_37 = PRIM_CDR(v__3520246_37);
+Obj v__3519834_37 = v__3520247_37;
+Obj v__3520248_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520249_37 = PRIM_CDR(v__3520248_37);
+Obj v__3520250_37 = PRIM_EQ(Nil, v__3520249_37);
+if (True == v__3520250_37) {
+Obj v__3520251_37 = primGenSym(co);
+Obj v__3519835_37 = v__3520251_37;
+Obj v__3520252_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3519833_37);
+Obj v__3520253_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3519834_37);
+Obj v__3520254_37 = makeCons(co->gc, v__3520253_37, Nil);
+Obj v__3520255_37 = makeCons(co->gc, v__3519835_37, v__3520254_37);
+Obj v__3520256_37 = makeCons(co->gc, v__3520255_37, Nil);
+Obj v__3520257_37 = makeCons(co->gc, v__3520252_37, v__3520256_37);
+Obj v__3520258_37 = makeCons(co->gc, v__3519835_37, v__3520257_37);
+Obj v__3520259_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520258_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3518060_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520259_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517624_37);
+coraCall0(co, v__3519823_37);
 return;
 }
 }
@@ -8426,61 +8426,61 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517625_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3518007_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3518007_37) {
-Obj v__3518008_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517626_37 = v__3518008_37;
-Obj v__3518009_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517627_37 = v__3518009_37;
-Obj v__3517630_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3517626_37, v__3517627_37, v__3517625_37);
-R[1] = v__3517626_37;
-R[2] = v__3517630_37;
+Obj v__3519824_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3520206_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520206_37) {
+Obj v__3520207_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519825_37 = v__3520207_37;
+Obj v__3520208_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519826_37 = v__3520208_37;
+Obj v__3519829_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3519825_37, v__3519826_37, v__3519824_37);
+R[1] = v__3519825_37;
+R[2] = v__3519829_37;
 saveCont(co, clofun13, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3517626_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519825_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517625_37);
+coraCall0(co, v__3519824_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3518028_37= co->res;
-Obj v__3517630_37 = R[1];
-if (True == v__3518028_37) {
+Obj v__3520227_37= co->res;
+Obj v__3519829_37 = R[1];
+if (True == v__3520227_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3517630_37, True);
+coraCall1(co, v__3519829_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517630_37, False);
+coraCall1(co, v__3519829_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3518027_37= co->res;
-Obj v__3517630_37 = R[1];
-R[1] = v__3517630_37;
+Obj v__3520226_37= co->res;
+Obj v__3519829_37 = R[1];
+R[1] = v__3519829_37;
 saveCont(co, clofun13, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3518027_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520226_37);
 return;
 }
 case 3:
 {
-Obj v__3518026_37= co->res;
-Obj v__3517626_37 = R[1];
-Obj v__3517630_37 = R[2];
-if (True == v__3518026_37) {
-R[1] = v__3517630_37;
+Obj v__3520225_37= co->res;
+Obj v__3519825_37 = R[1];
+Obj v__3519829_37 = R[2];
+if (True == v__3520225_37) {
+R[1] = v__3519829_37;
 saveCont(co, clofun13, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3517626_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519825_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3517630_37, False);
+coraCall1(co, v__3519829_37, False);
 return;
 }
 }
@@ -8491,8 +8491,8 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517629_37 = R[1];
-if (True == v__3517629_37) {
+Obj v__3519828_37 = R[1];
+if (True == v__3519828_37) {
 saveCont(co, clofun12, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
@@ -8504,61 +8504,61 @@ return;
 }
 case 1:
 {
-Obj v__3518016_37= co->res;
-Obj v__3518014_37 = R[1];
-Obj v__3518017_37 = makeCons(co->gc, v__3518014_37, v__3518016_37);
-coraReturn(co, v__3518017_37);
+Obj v__3520215_37= co->res;
+Obj v__3520213_37 = R[1];
+Obj v__3520216_37 = makeCons(co->gc, v__3520213_37, v__3520215_37);
+coraReturn(co, v__3520216_37);
 return;
 }
 case 2:
 {
-Obj v__3518015_37= co->res;
-Obj v__3518014_37 = R[1];
-R[1] = v__3518014_37;
+Obj v__3520214_37= co->res;
+Obj v__3520213_37 = R[1];
+R[1] = v__3520213_37;
 saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518015_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520214_37, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v__3518022_37= co->res;
-Obj v__3517633_37 = R[1];
-Obj v__3518023_37 = makeCons(co->gc, v__3518022_37, Nil);
-Obj v__3518024_37 = makeCons(co->gc, v__3517633_37, v__3518023_37);
-Obj v__3518025_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3518024_37);
+Obj v__3520221_37= co->res;
+Obj v__3519832_37 = R[1];
+Obj v__3520222_37 = makeCons(co->gc, v__3520221_37, Nil);
+Obj v__3520223_37 = makeCons(co->gc, v__3519832_37, v__3520222_37);
+Obj v__3520224_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520223_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), v__3518025_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), v__3520224_37);
 return;
 }
 case 4:
 {
-Obj v__3518020_37= co->res;
-Obj v__3517633_37 = v__3518020_37;
-Obj v__3518021_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
-R[1] = v__3517633_37;
+Obj v__3520219_37= co->res;
+Obj v__3519832_37 = v__3520219_37;
+Obj v__3520220_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
+R[1] = v__3519832_37;
 saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3518021_37, v__3517633_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520220_37, v__3519832_37);
 return;
 }
 case 5:
 {
-Obj v__3518011_37= co->res;
-Obj v__3517631_37 = R[1];
-Obj v__3517632_37 = v__3518011_37;
-Obj v__3518012_37 = PRIM_EQ(v__3517631_37, v__3517632_37);
-if (True == v__3518012_37) {
-Obj v__3518013_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3518014_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3518013_37);
-R[1] = v__3518014_37;
+Obj v__3520210_37= co->res;
+Obj v__3519830_37 = R[1];
+Obj v__3519831_37 = v__3520210_37;
+Obj v__3520211_37 = PRIM_EQ(v__3519830_37, v__3519831_37);
+if (True == v__3520211_37) {
+Obj v__3520212_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3520213_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520212_37);
+R[1] = v__3520213_37;
 saveCont(co, clofun12, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3518018_37 = PRIM_GT(v__3517631_37, v__3517632_37);
-if (True == v__3518018_37) {
-Obj v__3518019_37 = PRIM_SUB(v__3517631_37, v__3517632_37);
+Obj v__3520217_37 = PRIM_GT(v__3519830_37, v__3519831_37);
+if (True == v__3520217_37) {
+Obj v__3520218_37 = PRIM_SUB(v__3519830_37, v__3519831_37);
 saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3518019_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3520218_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8569,9 +8569,9 @@ return;
 }
 case 6:
 {
-Obj v__3518010_37= co->res;
-Obj v__3517631_37 = v__3518010_37;
-R[1] = v__3517631_37;
+Obj v__3520209_37= co->res;
+Obj v__3519830_37 = v__3520209_37;
+R[1] = v__3519830_37;
 saveCont(co, clofun12, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), closureRef(R[0], 3));
 return;
@@ -8589,9 +8589,9 @@ return;
 }
 case 1:
 {
-Obj v__3518006_37= co->res;
+Obj v__3520205_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3518006_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520205_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8601,18 +8601,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517451_37 = R[1];
-Obj v__3517452_37 = R[2];
-Obj v__3517992_37 = PRIM_EQ(MAKE_NUMBER(0), v__3517451_37);
-if (True == v__3517992_37) {
-coraReturn(co, v__3517452_37);
+Obj v__3519170_37 = R[1];
+Obj v__3519171_37 = R[2];
+Obj v__3520191_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519170_37);
+if (True == v__3520191_37) {
+coraReturn(co, v__3519171_37);
 return;
 } else {
-Obj v__3517993_37 = PRIM_SUB(v__3517451_37, MAKE_NUMBER(1));
-Obj v__3517994_37 = primGenSym(co);
-Obj v__3517995_37 = makeCons(co->gc, v__3517994_37, v__3517452_37);
+Obj v__3520192_37 = PRIM_SUB(v__3519170_37, MAKE_NUMBER(1));
+Obj v__3520193_37 = primGenSym(co);
+Obj v__3520194_37 = makeCons(co->gc, v__3520193_37, v__3519171_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3517993_37, v__3517995_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3520192_37, v__3520194_37);
 return;
 }
 }
@@ -8623,31 +8623,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3519168_37 = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519168_37, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj v__3517990_37= co->res;
-Obj v__3517613_37 = R[1];
-if (True == v__3517990_37) {
+Obj v__3520189_37= co->res;
+Obj v__3519812_37 = R[1];
+if (True == v__3520189_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3517613_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519812_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517989_37= co->res;
-Obj v__3517613_37 = v__3517989_37;
-R[1] = v__3517613_37;
+Obj v__3520188_37= co->res;
+Obj v__3519812_37 = v__3520188_37;
+R[1] = v__3519812_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517613_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519812_37);
 return;
 }
 }
@@ -8657,31 +8657,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3519166_37 = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519166_37, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj v__3517987_37= co->res;
-Obj v__3517612_37 = R[1];
-if (True == v__3517987_37) {
+Obj v__3520186_37= co->res;
+Obj v__3519811_37 = R[1];
+if (True == v__3520186_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3517612_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3519811_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3517986_37= co->res;
-Obj v__3517612_37 = v__3517986_37;
-R[1] = v__3517612_37;
+Obj v__3520185_37= co->res;
+Obj v__3519811_37 = v__3520185_37;
+R[1] = v__3519811_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517612_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519811_37);
 return;
 }
 }
@@ -8691,23 +8691,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
+Obj v__3519165_37 = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v_x, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519165_37, globalRef(co, getBinding(co, packageID, 122)));
 return;
 }
 case 1:
 {
-Obj v__3517983_37= co->res;
-Obj v__3517984_37 = primNot(v__3517983_37);
-coraReturn(co, v__3517984_37);
+Obj v__3520182_37= co->res;
+Obj v__3520183_37 = primNot(v__3520182_37);
+coraReturn(co, v__3520183_37);
 return;
 }
 case 2:
 {
-Obj v__3517982_37= co->res;
+Obj v__3520181_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3517982_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520181_37);
 return;
 }
 }
@@ -8717,23 +8717,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517447_37 = R[1];
-Obj v__3517448_37 = R[2];
-Obj v__3517906_37 = PRIM_EQ(Nil, v__3517448_37);
-if (True == v__3517906_37) {
+Obj v__3519159_37 = R[1];
+Obj v__3519160_37 = R[2];
+Obj v__3520105_37 = PRIM_EQ(Nil, v__3519160_37);
+if (True == v__3520105_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3517907_37 = PRIM_ISCONS(v__3517448_37);
-if (True == v__3517907_37) {
-Obj v__3517908_37 = PRIM_CAR(v__3517448_37);
-Obj v__3517610_37 = v__3517908_37;
-Obj v__3517909_37 = PRIM_CDR(v__3517448_37);
-Obj v__3517611_37 = v__3517909_37;
-R[1] = v__3517447_37;
-R[2] = v__3517611_37;
+Obj v__3520106_37 = PRIM_ISCONS(v__3519160_37);
+if (True == v__3520106_37) {
+Obj v__3520107_37 = PRIM_CAR(v__3519160_37);
+Obj v__3519809_37 = v__3520107_37;
+Obj v__3520108_37 = PRIM_CDR(v__3519160_37);
+Obj v__3519810_37 = v__3520108_37;
+R[1] = v__3519159_37;
+R[2] = v__3519810_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3517447_37, v__3517610_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519159_37, v__3519809_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8744,13 +8744,13 @@ return;
 }
 case 1:
 {
-Obj v__3517910_37= co->res;
-Obj v__3517447_37 = R[1];
-Obj v__3517611_37 = R[2];
-Obj v__3517911_37 = PRIM_LT(v__3517910_37, MAKE_NUMBER(0));
-if (True == v__3517911_37) {
+Obj v__3520109_37= co->res;
+Obj v__3519159_37 = R[1];
+Obj v__3519810_37 = R[2];
+Obj v__3520110_37 = PRIM_LT(v__3520109_37, MAKE_NUMBER(0));
+if (True == v__3520110_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3517447_37, v__3517611_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3519159_37, v__3519810_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8764,10 +8764,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v_x = R[1];
-Obj v_l = R[2];
+Obj v__3519157_37 = R[1];
+Obj v__3519158_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), v_x, v_l);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), v__3519157_37, v__3519158_37);
 return;
 }
 }
@@ -8777,32 +8777,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517441_37 = R[1];
-Obj v__3517442_37 = R[2];
-Obj v__3517443_37 = R[3];
-Obj v__3517895_37 = PRIM_EQ(Nil, v__3517443_37);
-if (True == v__3517895_37) {
+Obj v__3519148_37 = R[1];
+Obj v__3519149_37 = R[2];
+Obj v__3519150_37 = R[3];
+Obj v__3520094_37 = PRIM_EQ(Nil, v__3519150_37);
+if (True == v__3520094_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3517607_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3517443_37, v__3517441_37, v__3517442_37);
-Obj v__3517900_37 = PRIM_ISCONS(v__3517443_37);
-if (True == v__3517900_37) {
-Obj v__3517901_37 = PRIM_CAR(v__3517443_37);
-Obj v__3517609_37 = v__3517901_37;
-Obj v__3517902_37 = PRIM_CDR(v__3517443_37);
-Obj v__3517903_37 = PRIM_EQ(v__3517442_37, v__3517609_37);
-if (True == v__3517903_37) {
-coraReturn(co, v__3517441_37);
+Obj v__3519806_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519150_37, v__3519148_37, v__3519149_37);
+Obj v__3520099_37 = PRIM_ISCONS(v__3519150_37);
+if (True == v__3520099_37) {
+Obj v__3520100_37 = PRIM_CAR(v__3519150_37);
+Obj v__3519808_37 = v__3520100_37;
+Obj v__3520101_37 = PRIM_CDR(v__3519150_37);
+Obj v__3520102_37 = PRIM_EQ(v__3519149_37, v__3519808_37);
+if (True == v__3520102_37) {
+coraReturn(co, v__3519148_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517607_37);
+coraCall0(co, v__3519806_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517607_37);
+coraCall0(co, v__3519806_37);
 return;
 }
 }
@@ -8814,14 +8814,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517896_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517896_37) {
-Obj v__3517897_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517898_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517608_37 = v__3517898_37;
-Obj v__3517899_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3520095_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520095_37) {
+Obj v__3520096_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520097_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519807_37 = v__3520097_37;
+Obj v__3520098_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3517899_37, closureRef(R[0], 2), v__3517608_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3520098_37, closureRef(R[0], 2), v__3519807_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8836,24 +8836,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517436_37 = R[1];
-Obj v__3517437_37 = R[2];
-Obj v__3517438_37 = R[3];
-Obj v__3517889_37 = PRIM_EQ(Nil, v__3517438_37);
-if (True == v__3517889_37) {
-coraReturn(co, v__3517437_37);
+Obj v__3519141_37 = R[1];
+Obj v__3519142_37 = R[2];
+Obj v__3519143_37 = R[3];
+Obj v__3520088_37 = PRIM_EQ(Nil, v__3519143_37);
+if (True == v__3520088_37) {
+coraReturn(co, v__3519142_37);
 return;
 } else {
-Obj v__3517890_37 = PRIM_ISCONS(v__3517438_37);
-if (True == v__3517890_37) {
-Obj v__3517891_37 = PRIM_CAR(v__3517438_37);
-Obj v__3517605_37 = v__3517891_37;
-Obj v__3517892_37 = PRIM_CDR(v__3517438_37);
-Obj v__3517606_37 = v__3517892_37;
-R[1] = v__3517436_37;
-R[2] = v__3517606_37;
+Obj v__3520089_37 = PRIM_ISCONS(v__3519143_37);
+if (True == v__3520089_37) {
+Obj v__3520090_37 = PRIM_CAR(v__3519143_37);
+Obj v__3519804_37 = v__3520090_37;
+Obj v__3520091_37 = PRIM_CDR(v__3519143_37);
+Obj v__3519805_37 = v__3520091_37;
+R[1] = v__3519141_37;
+R[2] = v__3519805_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3517436_37, v__3517437_37, v__3517605_37);
+coraCall2(co, v__3519141_37, v__3519142_37, v__3519804_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8864,11 +8864,11 @@ return;
 }
 case 1:
 {
-Obj v__3517893_37= co->res;
-Obj v__3517436_37 = R[1];
-Obj v__3517606_37 = R[2];
+Obj v__3520092_37= co->res;
+Obj v__3519141_37 = R[1];
+Obj v__3519805_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3517436_37, v__3517893_37, v__3517606_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3519141_37, v__3520092_37, v__3519805_37);
 return;
 }
 }
@@ -8878,44 +8878,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517431_37 = R[1];
-Obj v__3517432_37 = R[2];
-Obj v__3517874_37 = PRIM_EQ(Nil, v__3517432_37);
-if (True == v__3517874_37) {
+Obj v__3519131_37 = R[1];
+Obj v__3519132_37 = R[2];
+Obj v__3520073_37 = PRIM_EQ(Nil, v__3519132_37);
+if (True == v__3520073_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3517601_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3517432_37, v__3517431_37);
-Obj v__3517878_37 = PRIM_ISCONS(v__3517432_37);
-if (True == v__3517878_37) {
-Obj v__3517879_37 = PRIM_CAR(v__3517432_37);
-Obj v__3517880_37 = PRIM_ISCONS(v__3517879_37);
-if (True == v__3517880_37) {
-Obj v__3517881_37 = PRIM_CAR(v__3517432_37);
-Obj v__3517882_37 = PRIM_CAR(v__3517881_37);
-Obj v__3517603_37 = v__3517882_37;
-Obj v__3517883_37 = PRIM_CAR(v__3517432_37);
-Obj v__3517884_37 = PRIM_CDR(v__3517883_37);
-Obj v__3517604_37 = v__3517884_37;
-Obj v__3517885_37 = PRIM_CDR(v__3517432_37);
-Obj v__3517886_37 = PRIM_EQ(v__3517431_37, v__3517603_37);
-if (True == v__3517886_37) {
-Obj v__3517887_37 = makeCons(co->gc, v__3517603_37, v__3517604_37);
-coraReturn(co, v__3517887_37);
+Obj v__3519800_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3519132_37, v__3519131_37);
+Obj v__3520077_37 = PRIM_ISCONS(v__3519132_37);
+if (True == v__3520077_37) {
+Obj v__3520078_37 = PRIM_CAR(v__3519132_37);
+Obj v__3520079_37 = PRIM_ISCONS(v__3520078_37);
+if (True == v__3520079_37) {
+Obj v__3520080_37 = PRIM_CAR(v__3519132_37);
+Obj v__3520081_37 = PRIM_CAR(v__3520080_37);
+Obj v__3519802_37 = v__3520081_37;
+Obj v__3520082_37 = PRIM_CAR(v__3519132_37);
+Obj v__3520083_37 = PRIM_CDR(v__3520082_37);
+Obj v__3519803_37 = v__3520083_37;
+Obj v__3520084_37 = PRIM_CDR(v__3519132_37);
+Obj v__3520085_37 = PRIM_EQ(v__3519131_37, v__3519802_37);
+if (True == v__3520085_37) {
+Obj v__3520086_37 = makeCons(co->gc, v__3519802_37, v__3519803_37);
+coraReturn(co, v__3520086_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519800_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519800_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3517601_37);
+coraCall0(co, v__3519800_37);
 return;
 }
 }
@@ -8927,13 +8927,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3517875_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3517875_37) {
-Obj v__3517876_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3517877_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3517602_37 = v__3517877_37;
+Obj v__3520074_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520074_37) {
+Obj v__3520075_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520076_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519801_37 = v__3520076_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3517602_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3519801_37);
 return;
 } else {
 co->ctx.sp = R;
-- 
2.43.0


From ed6eb24e9df732a018b54f5cb37580b291c2833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 22/90] fix: give an interpreted closure a frame as large as
 its parameter list

Four parameters were written past the end of the frame, five stopped the
program.
---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 109f6b5..95d9574 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -990,7 +990,7 @@ makeClosureForEval(Cora *co, int label, Obj *R) {
 	Obj env = R[3];
 	int len = listLen(params);
 	Obj ret =
-		makeNative(co->gc, 4, applyClosureForEval, len, 3, params, body, env);
+		makeNative(co->gc, len + 1, applyClosureForEval, len, 3, params, body, env);
 	coraReturn(co, ret);
 }
 
-- 
2.43.0


From 27c0524e7aad1b29f7996e69726d1328e5a20f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 23/90] fix: append two empty strings

---
 src/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 95d9574..6b68afc 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -635,7 +635,7 @@ builtinStringAppend(Cora *co, int label, Obj *R) {
 	Obj str2 = R[2];
 	str x = stringStr(str1);
 	str y = stringStr(str2);
-	strBuf tmp = strNew(x.len + y.len);
+	strBuf tmp = strNew(x.len + y.len + 1);
 	tmp = strCpy(tmp, x);
 	tmp = strCat(tmp, y);
 	str s = toStr(tmp);
-- 
2.43.0


From 3689890c72988cb2bb40dcf8f635dd251503dfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 24/90] fix: do not take a number for a vector

isvector looked at the tag bits of a value that may be a plain double:
(vector? 31) dereferenced a null pointer.
---
 src/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.c b/src/types.c
index 0ffd7b3..614cc6e 100644
--- a/src/types.c
+++ b/src/types.c
@@ -333,7 +333,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 
 bool
 isvector(Obj o) {
-	if (tag(o) == TAG_PTR) {
+	if (isobj(o) && tag(o) == TAG_PTR) {
 		if (((scmHead *)ptr(o))->type == scmHeadVector) {
 			return true;
 		}
-- 
2.43.0


From 3ef32d42bcb86a82bea06caf48cb921b087164cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 25/90] fix: define the functions that cora.h declares

coraMustCObj, coraIsNumber, coraMakeBytes, coraBytesLen, coraCar, coraCdr,
coraVectorAppend, coraIsVector and coraVectorLength were declared for
embedders but not in the library. coraVectorAppend allocates, so it takes
the Cora like its neighbours do.
---
 src/cora.h   |  2 +-
 src/export.c | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/cora.h b/src/cora.h
index 491fbc9..e4bca44 100644
--- a/src/cora.h
+++ b/src/cora.h
@@ -49,7 +49,7 @@ extern "C" {
 	Obj coraMakeVector(Cora *co, int size, int cap);
 	Obj coraVectorRef(Obj vec, int idx);
 	Obj coraVectorSet(Cora *co, Obj vec, int idx, Obj val);
-	Obj coraVectorAppend(Obj vec, Obj val);
+	Obj coraVectorAppend(Cora *co, Obj vec, Obj val);
 	bool coraIsVector(Obj o);
 	int coraVectorLength(Obj vec);
 
diff --git a/src/export.c b/src/export.c
index fdea94a..2896cf9 100644
--- a/src/export.c
+++ b/src/export.c
@@ -98,3 +98,48 @@ Obj
 coraPrimGenSym(Cora *co) {
 	return primGenSym(co);
 }
+
+void *
+coraMustCObj(Obj o) {
+	return mustCObj(o);
+}
+
+bool
+coraIsNumber(Obj o) {
+	return isNumber(o);
+}
+
+Obj
+coraMakeBytes(Cora *co, int len) {
+	return makeBytes(co->gc, len);
+}
+
+int
+coraBytesLen(Obj o) {
+	return bytesLen(o);
+}
+
+Obj
+coraCar(Obj o) {
+	return car(o);
+}
+
+Obj
+coraCdr(Obj o) {
+	return cdr(o);
+}
+
+Obj
+coraVectorAppend(Cora *co, Obj vec, Obj val) {
+	return vectorAppend(co->gc, vec, val);
+}
+
+bool
+coraIsVector(Obj o) {
+	return isvector(o);
+}
+
+int
+coraVectorLength(Obj vec) {
+	return vectorLength(vec);
+}
-- 
2.43.0


From 7312a47bc6d6046b2c6744c4c93c7c76920884f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 26/90] fix: remember an old vector that vectorAppend stores a
 young object into

---
 src/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.c b/src/types.c
index 614cc6e..bf3f7d6 100644
--- a/src/types.c
+++ b/src/types.c
@@ -328,6 +328,7 @@ vectorAppend(GC *gc, Obj vec, Obj val) {
 	}
 	v->data[v->size] = val;
 	v->size++;
+	writeBarrierForGeneration(gc, &v->head, val);
 	return makeNaNPtr(&v->head, TAG_PTR);
 }
 
-- 
2.43.0


From c55ebdb7bba927fa6f4d2111074cd3744fdb941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 27/90] fix: delete the given key from a hash table, and accept
 negative keys

hash-del! removed the first entry of the bucket, whatever its key, and a
negative key indexed the table's own header.
---
 lib/hash-h.c  | 9 +++++++--
 lib/hash.cora | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/hash-h.c b/lib/hash-h.c
index 2ec337f..a4ad0c0 100644
--- a/lib/hash-h.c
+++ b/lib/hash-h.c
@@ -65,8 +65,13 @@ void
 builtinMod(struct Cora *co, int label, Obj *R) {
 	Obj x = R[1];
 	Obj y = R[2];
-	Obj ret = makeNumber(fixnum(x) % fixnum(y));
-	coraReturn(co, ret);
+	int64_t m = fixnum(y);
+	int64_t ret = fixnum(x) % m;
+	// The sign follows the divisor, so that the result is a valid index.
+	if (ret != 0 && (ret < 0) != (m < 0)) {
+		ret += m;
+	}
+	coraReturn(co, makeNumber(ret));
 }
 
 struct registerModule hashModule = {
diff --git a/lib/hash.cora b/lib/hash.cora
index c8277b3..014041a 100644
--- a/lib/hash.cora
+++ b/lib/hash.cora
@@ -16,7 +16,7 @@
 
   (func assoc-rm
 	key [] => []
-	key [[key . _] . more] => more
+	key [[k1 . _] . more] => more where (= key k1)
 	key [x . more] => [x . (assoc-rm key x more)])
 
   (defun hash-make (n)
-- 
2.43.0


From 954b047e3a9d43dcada3e845708ccab4313bfeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 28/90] fix: accept symbols with names of any length

Printing, hashing, compiling or taking the string of a symbol whose name is
255 characters or longer trapped.
---
 lib/hash-h.c       |  5 ++---
 lib/toc/internal.c |  4 ++--
 src/reader.c       |  5 ++---
 src/runtime.c      | 11 +++++------
 src/types.c        | 12 ++++++++++++
 src/types.h        |  1 +
 6 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/hash-h.c b/lib/hash-h.c
index a4ad0c0..2f9766f 100644
--- a/lib/hash-h.c
+++ b/lib/hash-h.c
@@ -17,9 +17,8 @@ hashToNumberHelp(Obj key) {
 
 	switch (tag(key)) {
 	case TAG_SYMBOL: {
-		char str[256];
-		symbolStr(key, str, 256);
-		int sum = hashForString(str);
+		char tmp[64];
+		int sum = hashForString(symbolName(key, tmp, sizeof(tmp)).str);
 		return makeNumber(sum);
 	}
 
diff --git a/lib/toc/internal.c b/lib/toc/internal.c
index 99b96f6..62bf755 100644
--- a/lib/toc/internal.c
+++ b/lib/toc/internal.c
@@ -17,8 +17,8 @@ builtinGenerateSym(struct Cora *co, int label, Obj *R) {
 	Obj to = R[1];
 	FILE *out = mustCObj(to);
 	Obj exp = R[2];
-	char s[256];
-	symbolStr(exp, s, 256);
+	char tmp[64];
+	char *s = symbolName(exp, tmp, sizeof(tmp)).str;
 	// the prefix keeps the name apart from C keywords and from the names
 	// that the generated code uses itself
 	fprintf(out, "v_");
diff --git a/src/reader.c b/src/reader.c
index 409b212..4f530a1 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -281,9 +281,8 @@ printObj(FILE *to, Obj o) {
 	} else if (iscons(o)) {
 		printCons(to, o, true);
 	} else if (issymbol(o)) {
-		char dest[256];
-		symbolStr(o, dest, 256);
-		fprintf(to, "%s", dest);
+		char tmp[64];
+		fprintf(to, "%s", symbolName(o, tmp, sizeof(tmp)).str);
 	} else if (isboolean(o)) {
 		if (o == True) {
 			fprintf(to, "true");
diff --git a/src/runtime.c b/src/runtime.c
index 6b68afc..311752a 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -239,9 +239,9 @@ primIsString(Obj x) {
 void
 symbolToString(Cora *co, int lable, Obj *R) {
 	Obj sym = R[1];
-	char dest[256];
-	symbolStr(sym, dest, 256);
-	Obj val = makeCString(co->gc, dest);
+	char tmp[64];
+	str name = symbolName(sym, tmp, sizeof(tmp));
+	Obj val = makeString(co->gc, name.str, name.len);
 	coraReturn(co, val);
 }
 
@@ -647,9 +647,8 @@ builtinStringAppend(Cora *co, int label, Obj *R) {
 static void
 builtinSymbolCooked(Cora *co, int label, Obj *R) {
 	Obj sym = R[1];
-	char dst[256];
-	symbolStr(sym, dst, 256);
-	for (char *s = dst; *s != 0; s++) {
+	char tmp[64];
+	for (char *s = symbolName(sym, tmp, sizeof(tmp)).str; *s != 0; s++) {
 		if (*s == '#') {
 			coraReturn(co, True);
 			return;
diff --git a/src/types.c b/src/types.c
index bf3f7d6..b213f3e 100644
--- a/src/types.c
+++ b/src/types.c
@@ -189,6 +189,18 @@ symbolStr(Obj sym, char *dest, size_t sz) {
 	assert(false);
 }
 
+// The name of a symbol of any length. tmp is only used for a gensym, and the
+// result may point into it.
+str
+symbolName(Obj sym, char *tmp, size_t sz) {
+	assert(issymbol(sym));
+	if (tag(sym) == TAG_SYMBOL) {
+		return toStr(ptr(sym));
+	}
+	symbolStr(sym, tmp, sz);
+	return cstr(tmp);
+}
+
 Obj
 makeNative(GC *gc, int nframe, basicBlock fn, int required, int captured,
 	...) {
diff --git a/src/types.h b/src/types.h
index 342757c..36b7797 100644
--- a/src/types.h
+++ b/src/types.h
@@ -63,6 +63,7 @@ void* mustCObj(Obj o);
 
 Obj intern(char *s);
 int symbolStr(Obj sym, char* dest, size_t sz);
+str symbolName(Obj sym, char *tmp, size_t sz);
 
 Obj makeCons(GC *gc, Obj car, Obj cdr);
 Obj consp(Obj v);
-- 
2.43.0


From cad0aee29fe6cf2c23275bf8e1d2f433ba119051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 29/90] fix: read, print and compare long lists without C
 recursion

A list of a few hundred thousand elements overflowed the C stack.
---
 src/reader.c | 46 +++++++++++++++++-----------------------------
 src/types.h  | 10 ++++++----
 2 files changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 4f530a1..bb80e39 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -55,26 +55,20 @@ peekFirstChar(FILE *in) {
 
 static Obj
 readCons(GC *gc, FILE *in, int *errCode) {
+	// a loop, not a recursion on the tail: a list may be long
+	Obj ret = Nil;
 	int c = peekFirstChar(in);
-	if (c == ')') {
-		// read the empty list
-		return Nil;
+	while (c != EOF && c != ')') {
+		ungetc(c, in);
+		Obj o = sexpRead(gc, in, errCode);
+		ret = makeCons(gc, o, ret);
+		c = peekFirstChar(in);
 	}
 	if (c == EOF) {
 		// the list is not terminated
 		*errCode = 1;
-		return Nil;
 	}
-
-	ungetc(c, in);
-	Obj hd = sexpRead(gc, in, errCode);
-
-	c = peekFirstChar(in);
-	ungetc(c, in);
-
-	/* read list */
-	Obj tl = readCons(gc, in, errCode);
-	return makeCons(gc, hd, tl);
+	return reverse(gc, ret);
 }
 
 Obj
@@ -251,25 +245,19 @@ sexpRead(GC *gc, FILE *in, int *errCode) {
 }
 
 static void
-printCons(FILE *to, Obj o, bool start) {
-	if (start) {
-		fprintf(to, "(");
-		printObj(to, car(o));
-	} else {
+printCons(FILE *to, Obj o) {
+	// a loop, not a recursion on the tail: a list may be long
+	fprintf(to, "(");
+	printObj(to, car(o));
+	for (o = cdr(o); iscons(o); o = cdr(o)) {
 		fprintf(to, " ");
 		printObj(to, car(o));
 	}
-
-	Obj tl = cdr(o);
-	if (tl == Nil) {
-		fprintf(to, ")");
-	} else if (iscons(tl)) {
-		printCons(to, tl, false);
-	} else {
+	if (o != Nil) {
 		fprintf(to, " . ");
-		printObj(to, tl);
-		fprintf(to, ")");
+		printObj(to, o);
 	}
+	fprintf(to, ")");
 }
 
 void
@@ -279,7 +267,7 @@ printObj(FILE *to, Obj o) {
 	} else if (iscobj(o)) {
 		fprintf(to, "cobj");
 	} else if (iscons(o)) {
-		printCons(to, o, true);
+		printCons(to, o);
 	} else if (issymbol(o)) {
 		char tmp[64];
 		fprintf(to, "%s", symbolName(o, tmp, sizeof(tmp)).str);
diff --git a/src/types.h b/src/types.h
index 36b7797..90ba9e4 100644
--- a/src/types.h
+++ b/src/types.h
@@ -116,13 +116,15 @@ struct scmBytes {
 
 static inline bool
 eq(Obj x, Obj y) {
-    if (x == y) return true;
-
-    if (iscons(x) && iscons(y)) {
+    // a loop, not a recursion on the tail: a list may be long
+    while (x != y && iscons(x) && iscons(y)) {
         if (!eq(car(x), car(y))) return false;
-        return eq(cdr(x), cdr(y));
+        x = cdr(x);
+        y = cdr(y);
     }
 
+    if (x == y) return true;
+
     if (isBytes(x) && isBytes(y)) {
         struct scmBytes *x1 = ptr(x);
         struct scmBytes *y1 = ptr(y);
-- 
2.43.0


From 5bac9ffefdcb9b6bcba3da41e25118ae77b2867b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 30/90] fix: write an expression to the given stream

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index bb80e39..7d50a3c 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -307,5 +307,5 @@ printObj(FILE *to, Obj o) {
 
 void
 sexpWrite(FILE *out, Obj o) {
-	printObj(stdout, o);
+	printObj(out, o);
 }
-- 
2.43.0


From 7401c0478d8844139626630a963755cd22839c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 31/90] fix: let the sweep of a collection get ahead of the
 allocator

One block was swept for each allocation. Over blocks that hold a single
object (2 to 4 kB) that never gets ahead, so every full sweep ran out of
swept blocks and the heap grew for as long as the program ran.
---
 src/gc.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gc.c b/src/gc.c
index b67b301..fea1180 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -1145,6 +1145,8 @@ gcRunSweep(GC *gc) {
 	sweepLargeObjects(gc, pg);
 }
 
+#define SWEEPS_PER_INCREMENT 2
+
 void
 gcRun(GC *gc) {
 	TRACE_SCOPE("gcRun");
@@ -1168,7 +1170,13 @@ gcRun(GC *gc) {
 		gcRunIncremental(gc);
 		break;
 	case gcStateSweep:
-		gcRunSweep(gc);
+		// Several blocks for each allocation: at one block for one allocation
+		// a sweep over blocks that hold a single object never gets ahead of the
+		// allocator, which then runs out of swept blocks and grows the heap.
+		for (int i = 0; i < SWEEPS_PER_INCREMENT && gc->state == gcStateSweep;
+			i++) {
+			gcRunSweep(gc);
+		}
 		break;
 	}
 }
-- 
2.43.0


From 144c0a9dce1686cc49e26099381b3af118d55f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 32/90] fix: terminate the data of a bytes object

---
 src/types.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.c b/src/types.c
index b213f3e..dabef54 100644
--- a/src/types.c
+++ b/src/types.c
@@ -104,6 +104,7 @@ makeBytes(GC *gc, int len) {
 	int alloc = len + sizeof(struct scmBytes) + 1;
 	struct scmBytes *str = newObj(gc, scmHeadBytes, alloc);
 	str->len = len;
+	str->data[len] = 0;
 	return makeNaNPtr(&str->head, TAG_BYTES);
 }
 
-- 
2.43.0


From b85178d1595e501e522ebd52435db6d975248091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 33/90] fix: an empty substring has a valid address

---
 src/str.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/str.c b/src/str.c
index 429789b..6602a26 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,16 +114,16 @@ strSub(str s, int start, int end) {
 	char *p1 = ptrByIdx(s.str, s.len, start);
 	if (p1 == NULL) {
 		return (str){
-			.len = 0};
+			.str = "", .len = 0};
 	}
 	char *p2 = ptrByIdx(s.str, s.len, end);
 	if (p2 == NULL) {
 		return (str){
-			.len = 0};
+			.str = "", .len = 0};
 	}
 	if (p1 >= p2) {
 		return (str){
-			.len = 0};
+			.str = "", .len = 0};
 	}
 	return (str){
 		.str = p1, .len = p2 - p1};
-- 
2.43.0


From 372925d1593ceed6104ab39894696fe534d5ead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 34/90] fix: split at separators that follow each other or come
 first

---
 lib/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/string.c b/lib/string.c
index 8b5b551..87f33af 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -146,7 +146,7 @@ stringSplit(struct Cora *co, int label, Obj *R) {
 	str s = from;
 	while (1) {
 		int pos = strStr(s, split);
-		if (pos > 0) {
+		if (pos >= 0 && strLen(split) > 0) {
 			str find = strSub(s, 0, pos);
 			res = makeCons(co->gc, makeString(co->gc, find.str, strLen(find)), res);
 			s = strSub(s, pos + strLen(split), strLen(s));
-- 
2.43.0


From 8a7f4211686cf7f288ab76e543505e46aefe501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 35/90] fix: check the bounds of the byte primitives, and read
 bytes as 0 to 255

---
 lib/string.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 87f33af..0daf565 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -65,7 +65,8 @@ stringIndex(struct Cora *co, int label, Obj *R) {
 	Obj y = R[2];
 
 	char *str = bytesData(x);
-	int idx = fixnum(y);
+	int64_t idx = fixnum(y);
+	assert(idx >= 0 && idx < bytesLen(x));
 	Obj ret = makeString(co->gc, str + idx, 1);
 	coraReturn(co, ret);
 }
@@ -166,18 +167,23 @@ bytesMemCpy(struct Cora *co, int label, Obj *R) {
 	Obj off2 = R[4];
 	Obj size = R[5];
 
-	char *dst = bytesData(to) + fixnum(off1);
-	char *src = bytesData(from) + fixnum(off2);
-	memcpy(dst, src, fixnum(size));
+	int64_t dstOff = fixnum(off1);
+	int64_t srcOff = fixnum(off2);
+	int64_t len = fixnum(size);
+	assert(len >= 0);
+	assert(dstOff >= 0 && dstOff <= bytesLen(to) - len);
+	assert(srcOff >= 0 && srcOff <= bytesLen(from) - len);
+	// both may be the same object
+	memmove(bytesData(to) + dstOff, bytesData(from) + srcOff, len);
 	coraReturn(co, Nil);
 }
 
 static void
 bytesRef(struct Cora *co, int label, Obj *R) {
 	Obj str = R[1];
-	Obj idx = fixnum(R[2]);
-	assert(idx < bytesLen(str));
-	Obj ret = makeNumber(bytesData(str)[idx]);
+	int64_t idx = fixnum(R[2]);
+	assert(idx >= 0 && idx < bytesLen(str));
+	Obj ret = makeNumber((unsigned char)bytesData(str)[idx]);
 	coraReturn(co, ret);
 }
 
@@ -188,7 +194,7 @@ stringToList(struct Cora *co, int label, Obj *R) {
 	int len = bytesLen(str);
 	Obj res = Nil;
 	for (int i = 0; i < len; i++) {
-		res = makeCons(co->gc, makeNumber(bs[i]), res);
+		res = makeCons(co->gc, makeNumber((unsigned char)bs[i]), res);
 	}
 	coraReturn(co, reverse(co->gc, res));
 }
-- 
2.43.0


From 1048c8e77541a8c861d9767d57aa5926e28a3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 36/90] fix: delete a hash entry that is not the first of its
 bucket

---
 lib/hash.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash.cora b/lib/hash.cora
index 014041a..2437b3a 100644
--- a/lib/hash.cora
+++ b/lib/hash.cora
@@ -17,7 +17,7 @@
   (func assoc-rm
 	key [] => []
 	key [[k1 . _] . more] => more where (= key k1)
-	key [x . more] => [x . (assoc-rm key x more)])
+	key [x . more] => [x . (assoc-rm key more)])
 
   (defun hash-make (n)
     (let h (vector (+ 3 n))
-- 
2.43.0


From 6be99c58508429d448f8eb2fb20813fb3433378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:04 +0000
Subject: [PATCH 37/90] fix: refuse a number literal that would round up to
 2^63

---
 src/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 7d50a3c..da5b49a 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -104,7 +104,8 @@ readListMacro(GC *gc, FILE *in, int *errCode) {
 
 static int64_t
 numberAppendDigit(int64_t n, int digit) {
-	if (n > (INT64_MAX - 9) / 10) {
+	// leave room for the rounding to a double, which must not reach 2^63
+	if (n > (INT64_MAX - 1024) / 10) {
 		fprintf(stderr, "number too large\n");
 		exit(1);
 	}
-- 
2.43.0


From 5079b295e0260b71454bdee6b0ffa1aa2a22ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 38/90] fix: stop at a throw outside any try instead of reading
 past the try stack

---
 src/runtime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime.c b/src/runtime.c
index 311752a..d8b3f57 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -808,6 +808,8 @@ continuationAsClosure(Cora *co, int label, Obj *R) {
 static void
 builtinThrow(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinThrow");
+	// There is no try to throw to.
+	assert(vecLen(&co->trystack) > 0);
 	struct tryMark mark = vecPop(&co->trystack);
 	Obj v = R[1];
 
-- 
2.43.0


From 2d808f5170dc4a15e80794f3181c8bf998cf1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 39/90] fix: run the toplevel code of a loaded file in the
 caller's trampoline

---
 src/runtime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index d8b3f57..a858e71 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -353,9 +353,9 @@ builtinLoadSo(Cora *co, int label, Obj *R) {
 		coraReturn(co, makeString(co->gc, error, strlen(error)));
 		return;
 	}
+	// Continue with the toplevel code of the file, which returns to the caller.
+	// A nested coraRun would be on the C stack when the code throws.
 	entry(co, 0, R);
-	coraRun(co);
-	coraReturn(co, co->res);
 	return;
 }
 
-- 
2.43.0


From 69e8a42238e6f8d7b9b6524ba585682a6fa54537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 40/90] fix: give each process its own files for load

---
 src/runtime.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index a858e71..fe17f0e 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -425,12 +425,12 @@ builtinLoad(Cora *co, int label, Obj *R) {
 		tmp = strCat(tmp, strSub(filePathStr, 0, strLen(filePathStr) - 5));
 		tmp = strCat(tmp, S(".so"));
 	} else {
-		tmp = strNew(30);
-		snprintf(toCStr(tmp), 30, "/tmp/cora-xxx-%d.so", cfileidx);
+		tmp = strNew(64);
+		snprintf(toCStr(tmp), 64, "/tmp/cora-xxx-%d-%d.so", (int)getpid(), cfileidx);
 	}
 	strFree(path);
 
-	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d.c", cfileidx);
+	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d-%d.c", (int)getpid(), cfileidx);
 	str tmpCFile = cstr(buf);
 	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
 	Binding bind = bindSymbol(co, intern("cora/lib/toc#compile-to-c"));
@@ -441,9 +441,9 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	// Obj res = co->args[1];
 
 	snprintf(buf, BUFSIZE,
-		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d.c -o "
+		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d-%d.c -o "
 		"%s -ldl -lm -L%s -lcora",
-		coraSrcDir, cfileidx, toCStr(tmp), coraSrcDir);
+		coraSrcDir, (int)getpid(), cfileidx, toCStr(tmp), coraSrcDir);
 	int exitCode = system(buf);
 	if (exitCode != 0) {
 		coraReturn(co, makeNumber(exitCode));
-- 
2.43.0


From 83d8dab78affc33074cf483e4d10e8484572f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:42 +0000
Subject: [PATCH 41/90] fix: let load see a file that changed since it was
 loaded before

---
 src/runtime.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index fe17f0e..c6b4e58 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -406,9 +406,7 @@ getCoraPath() {
 static int unique = 1;
 
 static void
-builtinLoad(Cora *co, int label, Obj *R) {
-	TRACE_SCOPE("builtinLoad");
-	// (load "file-path.cora")
+loadFile(Cora *co, Obj *R, bool package) {
 	Obj filePath = R[1];
 	Obj arg1 = filePath;
 	str filePathStr = stringStr(filePath);
@@ -418,17 +416,17 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	unique++;
 	// Decide this before the nested coraRun, filePath is not reachable in it.
 	strBuf tmp;
-	strBuf path = getCoraPath();
-	if (strCmp(filePathStr, toStr(path)) > 0) {
-		// The cora file is in $CORAPATH, it might be a import package
+	if (package) {
+		// A package in $CORAPATH, keep the .so file beside it for the next import.
 		tmp = strNew(filePathStr.len - 5 + 3);
 		tmp = strCat(tmp, strSub(filePathStr, 0, strLen(filePathStr) - 5));
 		tmp = strCat(tmp, S(".so"));
 	} else {
+		// A file may be loaded again after a change, and dlopen would return what
+		// it already has under the same name.
 		tmp = strNew(64);
 		snprintf(toCStr(tmp), 64, "/tmp/cora-xxx-%d-%d.so", (int)getpid(), cfileidx);
 	}
-	strFree(path);
 
 	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d-%d.c", (int)getpid(), cfileidx);
 	str tmpCFile = cstr(buf);
@@ -459,6 +457,19 @@ builtinLoad(Cora *co, int label, Obj *R) {
 	return;
 }
 
+static void
+builtinLoad(Cora *co, int label, Obj *R) {
+	TRACE_SCOPE("builtinLoad");
+	// (load "file-path.cora")
+	loadFile(co, R, false);
+}
+
+static void
+builtinLoadPackage(Cora *co, int label, Obj *R) {
+	TRACE_SCOPE("builtinLoadPackage");
+	loadFile(co, R, true);
+}
+
 static bool
 safeToUseSo(strBuf soFilePath) {
 	if (0 != access(toCStr(soFilePath), R_OK)) {
@@ -548,7 +559,7 @@ builtinImport(Cora *co, int label, Obj *R) {
 	strFree(tmp);
 
 	co->ctx.bp = R;
-	coraCall2(co, makeNative(co->gc, 3, builtinLoad, 2, 0), filePath, pkg);
+	coraCall2(co, makeNative(co->gc, 3, builtinLoadPackage, 2, 0), filePath, pkg);
 }
 
 static void
-- 
2.43.0


From 138283c7959854bf29b8f2016004bc7579bc142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 42/90] fix: build a loaded file in a directory whose name
 needs quoting or is long

---
 src/runtime.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index c6b4e58..b73e2b6 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -405,6 +405,20 @@ getCoraPath() {
 
 static int unique = 1;
 
+// Append s to a shell command as one word, whatever characters it has.
+static strBuf
+catQuoted(strBuf to, str s) {
+	to = strAppend(to, '\'');
+	for (int i = 0; i < s.len; i++) {
+		if (s.str[i] == '\'') {
+			to = strCat(to, S("'\\''"));
+		} else {
+			to = strAppend(to, s.str[i]);
+		}
+	}
+	return strAppend(to, '\'');
+}
+
 static void
 loadFile(Cora *co, Obj *R, bool package) {
 	Obj filePath = R[1];
@@ -438,11 +452,18 @@ loadFile(Cora *co, Obj *R, bool package) {
 	// TODO: check res?
 	// Obj res = co->args[1];
 
-	snprintf(buf, BUFSIZE,
-		"gcc -shared -I%s -g -fPIC /tmp/cora-xxx-%d-%d.c -o "
-		"%s -ldl -lm -L%s -lcora",
-		coraSrcDir, (int)getpid(), cfileidx, toCStr(tmp), coraSrcDir);
-	int exitCode = system(buf);
+	str srcDir = cstr((char *)coraSrcDir);
+	strBuf cmd = strNew(BUFSIZE);
+	cmd = strCat(cmd, S("gcc -shared -g -fPIC -I"));
+	cmd = catQuoted(cmd, srcDir);
+	cmd = strAppend(cmd, ' ');
+	cmd = strCat(cmd, cstr(buf));
+	cmd = strCat(cmd, S(" -o "));
+	cmd = catQuoted(cmd, cstr(toCStr(tmp)));
+	cmd = strCat(cmd, S(" -ldl -lm -lcora -L"));
+	cmd = catQuoted(cmd, srcDir);
+	int exitCode = system(toCStr(cmd));
+	strFree(cmd);
 	if (exitCode != 0) {
 		coraReturn(co, makeNumber(exitCode));
 		return;
-- 
2.43.0


From c2f61ad555dd0fb1a9a6e936937056c800b06614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 43/90] fix: other processes could load a package that is only
 half written

---
 src/runtime.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index b73e2b6..4290ffd 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -452,6 +452,13 @@ loadFile(Cora *co, Obj *R, bool package) {
 	// TODO: check res?
 	// Obj res = co->args[1];
 
+	// Other processes may use the .so file while this one makes it again, and
+	// they must never see half of it: make another file and rename it.
+	strBuf partial = strNew(BUFSIZE);
+	partial = strCpy(partial, cstr(toCStr(tmp)));
+	char suffix[32];
+	snprintf(suffix, sizeof(suffix), ".%d.tmp", (int)getpid());
+	partial = strCat(partial, cstr(suffix));
 	str srcDir = cstr((char *)coraSrcDir);
 	strBuf cmd = strNew(BUFSIZE);
 	cmd = strCat(cmd, S("gcc -shared -g -fPIC -I"));
@@ -459,11 +466,15 @@ loadFile(Cora *co, Obj *R, bool package) {
 	cmd = strAppend(cmd, ' ');
 	cmd = strCat(cmd, cstr(buf));
 	cmd = strCat(cmd, S(" -o "));
-	cmd = catQuoted(cmd, cstr(toCStr(tmp)));
+	cmd = catQuoted(cmd, toStr(partial));
 	cmd = strCat(cmd, S(" -ldl -lm -lcora -L"));
 	cmd = catQuoted(cmd, srcDir);
 	int exitCode = system(toCStr(cmd));
 	strFree(cmd);
+	if (exitCode == 0 && rename(toCStr(partial), toCStr(tmp)) != 0) {
+		exitCode = -1;
+	}
+	strFree(partial);
 	if (exitCode != 0) {
 		coraReturn(co, makeNumber(exitCode));
 		return;
-- 
2.43.0


From b201a8476aaabf97f6bee83d4112d6bdd5ba108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 44/90] fix: a package that was edited in the second of its
 last build, or while it was built, was not built again

---
 src/runtime.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/runtime.c b/src/runtime.c
index 4290ffd..a827cc8 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -9,11 +9,16 @@
 #include "vector.h"
 #include <dlfcn.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <pwd.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 #include <unistd.h>
 
+#ifdef __APPLE__
+#define st_mtim st_mtimespec
+#endif
+
 const int INIT_STACK_SIZE = 256;
 
 static void
@@ -442,6 +447,11 @@ loadFile(Cora *co, Obj *R, bool package) {
 		snprintf(toCStr(tmp), 64, "/tmp/cora-xxx-%d-%d.so", (int)getpid(), cfileidx);
 	}
 
+	// The .so file gets the time of the source that it is made from: a change
+	// of the source from now on is newer.
+	struct stat source;
+	bool stamp = stat(filePathStr.str, &source) == 0;
+
 	snprintf(buf, BUFSIZE, "/tmp/cora-xxx-%d-%d.c", (int)getpid(), cfileidx);
 	str tmpCFile = cstr(buf);
 	Obj arg2 = makeString(co->gc, tmpCFile.str, tmpCFile.len);
@@ -471,6 +481,10 @@ loadFile(Cora *co, Obj *R, bool package) {
 	cmd = catQuoted(cmd, srcDir);
 	int exitCode = system(toCStr(cmd));
 	strFree(cmd);
+	if (exitCode == 0 && stamp) {
+		struct timespec times[2] = {source.st_mtim, source.st_mtim};
+		utimensat(AT_FDCWD, toCStr(partial), times, 0);
+	}
 	if (exitCode == 0 && rename(toCStr(partial), toCStr(tmp)) != 0) {
 		exitCode = -1;
 	}
@@ -530,7 +544,9 @@ safeToUseSo(strBuf soFilePath) {
 			strerror(errno));
 		goto exit;
 	}
-	if (coraFileStat.st_mtime > soFileStat.st_mtime) {
+	struct timespec a = coraFileStat.st_mtim;
+	struct timespec b = soFileStat.st_mtim;
+	if (a.tv_sec > b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec > b.tv_nsec)) {
 		res = false;
 	}
 exit:
-- 
2.43.0


From 77e252fffddaeb6a6d7a7aa9422e26e49e28ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 45/90] fix: alternatives of a choice stayed active after
 another was committed

---
 lib/async.cora    | 46 +++++++++++++++++++++++++++++-----------------
 lib/chan.cora     | 18 ++++++------------
 lib/cml.cora      | 14 +++++++++++---
 lib/parallel.cora | 19 ++++++++++++-------
 4 files changed, 58 insertions(+), 39 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index af7df28..d877a5b 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -146,8 +146,13 @@
 
   (defun recv-op (conn buf pos)
     (let try (lambda () false)
-	 block (lambda (k wrap)
-		 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k))))
+	 block (lambda (k wrap state)
+		 (event-loop-add conn 'read (lambda (conn)
+					      (if (= 'Done (value state))
+						  (conn-set-read-callback! conn ())
+						  (begin
+						   (set state 'Done)
+						   (recv-handler [conn buf pos] k))))))
 	 [try block default-wrap]))
 
   (defun recv (conn buf)
@@ -184,14 +189,17 @@
 				   (conn-set-extra! conn pos)
 				   false)
 		      res res))
-	 block (lambda (k wrap)
+	 block (lambda (k wrap state)
 		 (begin
 		  ;; (display "send-op\n")
 		  (let pos1 (conn-extra conn)
 		       (event-loop-add conn 'write (lambda (conn)
-						     (begin
-						      ;; (display "in send callback\n")
-						      (send-handler [conn buf pos1] k)))))))
+						     (if (= 'Done (value state))
+							 (conn-set-write-callback! conn ())
+							 (begin
+							  (set state 'Done)
+							  ;; (display "in send callback\n")
+							  (send-handler [conn buf pos1] k))))))))
 	 [try block default-wrap]))
 
   (defun send (conn buf)
@@ -203,23 +211,27 @@
 
   (defun accept-op (ln)
     (let try (lambda () false)
-	 block (lambda (k wrap)
+	 block (lambda (k wrap state)
 		 (begin
 		  ;; (display "accept-op\n")
 		  (event-loop-add ln 'read (lambda (conn)
 					     (begin
 					      ;; (display "here in accept callback!\n")
 					      (conn-set-read-callback! conn ())
-					      (let fd (conn-fd conn)
-						   new-fd (net-accept fd)
-						   new-conn (conn-make new-fd)
-						   (begin
-						    ;; (display new-fd)
-						    ;; (display "before accept spawn\n")
-						    (spawn (lambda ()
-							     (begin
-							      ;; (display "accept spawn called\n")
-							      (k new-conn)))))))))))
+					      (if (= 'Done (value state))
+						  ()
+						  (begin
+						   (set state 'Done)
+						   (let fd (conn-fd conn)
+							new-fd (net-accept fd)
+							new-conn (conn-make new-fd)
+							(begin
+							 ;; (display new-fd)
+							 ;; (display "before accept spawn\n")
+							 (spawn (lambda ()
+								  (begin
+								   ;; (display "accept spawn called\n")
+								   (k new-conn)))))))))))))
 	 [try block default-wrap]))
 
   (defun accept (ln)
diff --git a/lib/chan.cora b/lib/chan.cora
index ce37843..8c8eceb 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -21,18 +21,15 @@
 				     (set state 'Done)
 				     val)))))
 
-  (defun recv-block (recvq k wrap)
-    (let state (gensym)
-      (begin
-	(set state 'Wait)
-	(enqueue recvq [state k wrap]))))
+  (defun recv-block (recvq k wrap state)
+    (enqueue recvq [state k wrap]))
 
   (defun default-wrap (x) x)
 
   ;; recv on channel is an operation
   (defun chan-recv (ch)
     (let try (lambda () (recv-try ch))
-      block (lambda (k wrap) (recv-block (cadr ch) k wrap))
+      block (lambda (k wrap state) (recv-block (cadr ch) k wrap state))
       [try block default-wrap]))
 
   (func send-try
@@ -50,16 +47,13 @@
 					      (set state 'Done)
 					      ())))))
 
-  (defun send-block (sendq k val wrap)
-    (let state (gensym)
-      (begin
-	(set state 'Wait)
-	(enqueue sendq [state k val wrap]))))
+  (defun send-block (sendq k val wrap state)
+    (enqueue sendq [state k val wrap]))
 
   ;; send on channel is an operation
   (defun chan-send (ch val)
     (let try (lambda () (send-try ch val))
-      block (lambda (k wrap) (send-block (car ch) k val wrap))
+      block (lambda (k wrap state) (send-block (car ch) k val wrap state))
       [try block default-wrap]))
 
   )
diff --git a/lib/cml.cora b/lib/cml.cora
index 99508f4..b8d0f2e 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -96,6 +96,13 @@
 	       (schedule-loop)))))
 
 
+  ;; the alternatives of a choice share one state: 'Wait, and 'Done when one of them is committed
+  (defun op-state ()
+    (let state (gensym)
+	 (begin
+	  (set state 'Wait)
+	  state)))
+
   (defun default-wrap (x) x)
 
   ;; wrap an operation to get another operation.
@@ -111,12 +118,13 @@
 
   (defun choice-op (ops)
     (let try (lambda () (choice-ops-try ops))
-      block (lambda (k wrap)
+      block (lambda (k wrap state)
 	      (for-each (lambda (op)
 			  (match op
 			    [try1 block1 wrap1]
 			    (block1 k (lambda (v)
-					(wrap (wrap1 v))))))
+					(wrap (wrap1 v)))
+				    state)))
 			ops))
       [try block default-wrap]))
 
@@ -161,7 +169,7 @@
 	      (if (= v false)
 		  (throw (lambda (k)
 			   (begin
-			    (block k wrap)
+			    (block k wrap (op-state))
 			    ;; (display "perform called block, now schedule\n")
 			    (schedule)
 			    ;; (display "perform called block, schedule exit\n")
diff --git a/lib/parallel.cora b/lib/parallel.cora
index ab67a0d..b68e881 100644
--- a/lib/parallel.cora
+++ b/lib/parallel.cora
@@ -45,7 +45,7 @@
 	 ;; (perform (mailbox-recv mb))
 	 (defun mailbox-recv (mb)
 	   (let try (lambda () (mailbox-recv-try mb))
-		block (lambda (k wrap)
+		block (lambda (k wrap state)
 			(begin
 			 (mailbox-lock mb)
 			 ;; it may happen that there is no msg when try
@@ -64,12 +64,17 @@
 								(begin
 								 (display "wakeup callback\n")
 								 (let val (conn-extra conn)
-								      (begin
-								       (conn-close conn)
-								       (display val)
-								       (display "spawn and continue with\n")
-								       (spawn (lambda () (k val)))
-								       (display "here after spawn in callback\n"))))))
+								      (if (= 'Done (value state))
+									  (begin
+									   (conn-close conn)
+									   (mailbox-send mb val))
+									  (begin
+									   (set state 'Done)
+									   (conn-close conn)
+									   (display val)
+									   (display "spawn and continue with\n")
+									   (spawn (lambda () (k val)))
+									   (display "here after spawn in callback\n")))))))
 				   (mailbox-enqueue-blocked mb write-conn)
 				   (mailbox-unlock mb))))))
 		[try block default-wrap]))
-- 
2.43.0


From 1c51ed52cd1d2eb1bf16e8754a40db5b1f6c751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 46/90] fix: a message or wrapped value that equals false was
 lost or taken as not ready

---
 lib/async.cora    | 2 +-
 lib/chan.cora     | 4 ++--
 lib/cml.cora      | 5 +++--
 lib/parallel.cora | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index d877a5b..b700ef5 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -188,7 +188,7 @@
 		      [block pos] (begin
 				   (conn-set-extra! conn pos)
 				   false)
-		      res res))
+		      res [res]))
 	 block (lambda (k wrap state)
 		 (begin
 		  ;; (display "send-op\n")
diff --git a/lib/chan.cora b/lib/chan.cora
index 8c8eceb..648747c 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -19,7 +19,7 @@
 				   (begin
 				     (enqueue-task (lambda () (resume (wrap ()))))
 				     (set state 'Done)
-				     val)))))
+				     [val])))))
 
   (defun recv-block (recvq k wrap state)
     (enqueue recvq [state k wrap]))
@@ -45,7 +45,7 @@
 								;; (io.display "resume recv op\n")
 								(resume (wrap val)))))
 					      (set state 'Done)
-					      ())))))
+					      [()])))))
 
   (defun send-block (sendq k val wrap state)
     (enqueue sendq [state k val wrap]))
diff --git a/lib/cml.cora b/lib/cml.cora
index b8d0f2e..096cb35 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -114,7 +114,7 @@
 	[] => false
 	[[try1 block1 wrap1] . remain] => (match (try1)
 					    false (choice-ops-try remain)
-					    v (wrap1 v)))
+					    [v] [(wrap1 v)]))
 
   (defun choice-op (ops)
     (let try (lambda () (choice-ops-try ops))
@@ -155,6 +155,7 @@
 
   ;; ;; perform performs an operation.
   ;; ;; an operation consistent of [try block wrap]
+  ;; ;; try returns [value], or false if the operation would block
   ;; ;; Usage example:
   ;; ;; (perform (choice
   ;; ;; 	  (wrap (recv ch1)
@@ -174,5 +175,5 @@
 			    (schedule)
 			    ;; (display "perform called block, schedule exit\n")
 			    )))
-		  (wrap v)))))
+		  (wrap (car v))))))
   )
diff --git a/lib/parallel.cora b/lib/parallel.cora
index b68e881..4d49c1f 100644
--- a/lib/parallel.cora
+++ b/lib/parallel.cora
@@ -44,7 +44,7 @@
 	 ;; mailbox is an operation, it may block if the mailbox is empty
 	 ;; (perform (mailbox-recv mb))
 	 (defun mailbox-recv (mb)
-	   (let try (lambda () (mailbox-recv-try mb))
+	   (let try (lambda () (let v (mailbox-recv-try mb) (if (= v false) false [v])))
 		block (lambda (k wrap state)
 			(begin
 			 (mailbox-lock mb)
-- 
2.43.0


From 1a00b14089bd1b1604413f679a2ac9a77f1866ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 47/90] fix: the wrap of an operation that had to wait ran
 outside its task, or not at all

---
 lib/async.cora    | 20 ++++++++++----------
 lib/chan.cora     |  4 ++--
 lib/cml.cora      |  5 +++--
 lib/parallel.cora |  2 +-
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index b700ef5..dcb20de 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -126,11 +126,11 @@
 	 (conn-make fd)))
 
   (func recv-handler
-	[conn buf pos] k => (begin
+	[conn buf pos] k wrap => (begin
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
 				    [block pos] (begin
-						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k)))
+						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k wrap)))
 						 ;; (display "recv-handler block and go to scheduler\n")
 						 (schedule)
 						 ;; (display "finish schedule in recv-handler")
@@ -138,7 +138,7 @@
 				    res (begin
 					 (conn-set-read-callback! conn ())
 					 ;; (display "before recv handler direct return\n")
-					 (spawn (lambda () (k res)))
+					 (spawn (lambda () (k (lambda () (wrap res)))))
 					 ;; (display "after recv handler direct return\n")
 					 ))))
 
@@ -152,7 +152,7 @@
 						  (conn-set-read-callback! conn ())
 						  (begin
 						   (set state 'Done)
-						   (recv-handler [conn buf pos] k))))))
+						   (recv-handler [conn buf pos] k wrap))))))
 	 [try block default-wrap]))
 
   (defun recv (conn buf)
@@ -161,10 +161,10 @@
       (perform (recv-op conn buf 0))))
 
   (func send-handler
-	[conn buf pos] k => (match (net-send (conn-fd conn) buf pos)
+	[conn buf pos] k wrap => (match (net-send (conn-fd conn) buf pos)
 				   [block pos] (begin
 						(event-loop-add conn 'write (lambda (conn)
-									      (send-handler [conn buf pos] k)))
+									      (send-handler [conn buf pos] k wrap)))
 						;; (display "send-handler block and go to schedule\n")
 						(schedule)
 						;; (display "finish send-handler\n")
@@ -179,8 +179,8 @@
 						       (lambda (m) (not (= 'write m)))
 						       old-mode)
 					     (net-poll-mod fd new-mode conn))
-					(spawn (lambda () (k res)))))
-	_ k => (display "wrong argument for send-handler\n"))
+					(spawn (lambda () (k (lambda () (wrap res)))))))
+	_ k wrap => (display "wrong argument for send-handler\n"))
 
   (defun send-op (conn buf pos)
     (let try (lambda ()
@@ -199,7 +199,7 @@
 							 (begin
 							  (set state 'Done)
 							  ;; (display "in send callback\n")
-							  (send-handler [conn buf pos1] k))))))))
+							  (send-handler [conn buf pos1] k wrap))))))))
 	 [try block default-wrap]))
 
   (defun send (conn buf)
@@ -231,7 +231,7 @@
 							 (spawn (lambda ()
 								  (begin
 								   ;; (display "accept spawn called\n")
-								   (k new-conn)))))))))))))
+								   (k (lambda () (wrap new-conn)))))))))))))))
 	 [try block default-wrap]))
 
   (defun accept (ln)
diff --git a/lib/chan.cora b/lib/chan.cora
index 648747c..6783903 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -17,7 +17,7 @@
 			       (if (= 'Done (value state))
 				   (recv-try [sendq recvq]) ;; ignore stale item and continue
 				   (begin
-				     (enqueue-task (lambda () (resume (wrap ()))))
+				     (enqueue-task (lambda () (resume (lambda () (wrap ())))))
 				     (set state 'Done)
 				     [val])))))
 
@@ -43,7 +43,7 @@
 					      (enqueue-task (lambda ()
 							      (begin
 								;; (io.display "resume recv op\n")
-								(resume (wrap val)))))
+								(resume (lambda () (wrap val))))))
 					      (set state 'Done)
 					      [()])))))
 
diff --git a/lib/cml.cora b/lib/cml.cora
index 096cb35..f8079b2 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -168,12 +168,13 @@
 	 wrap (caddr op)
 	 (let v (try)
 	      (if (= v false)
-		  (throw (lambda (k)
+		  ;; the operation resumes with a thunk, so that wrap runs in this task
+		  ((throw (lambda (k)
 			   (begin
 			    (block k wrap (op-state))
 			    ;; (display "perform called block, now schedule\n")
 			    (schedule)
 			    ;; (display "perform called block, schedule exit\n")
-			    )))
+			    ))))
 		  (wrap (car v))))))
   )
diff --git a/lib/parallel.cora b/lib/parallel.cora
index 4d49c1f..df0491a 100644
--- a/lib/parallel.cora
+++ b/lib/parallel.cora
@@ -73,7 +73,7 @@
 									   (conn-close conn)
 									   (display val)
 									   (display "spawn and continue with\n")
-									   (spawn (lambda () (k val)))
+									   (spawn (lambda () (k (lambda () (wrap val)))))
 									   (display "here after spawn in callback\n")))))))
 				   (mailbox-enqueue-blocked mb write-conn)
 				   (mailbox-unlock mb))))))
-- 
2.43.0


From be7ccf40b19de3cdd05146b5db5d2bc73b1ebfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 48/90] fix: a send that met a stale receiver lost its message

---
 lib/chan.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/chan.cora b/lib/chan.cora
index 6783903..dbdc60f 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -38,7 +38,7 @@
 				 (match (dequeue recvq)
 					[state resume wrap]
 					(if (= 'Done (value state))
-					    (send-try [sendq recvq]) ;; ignore stale
+					    (send-try [sendq recvq] val) ;; ignore stale
 					    (begin
 					      (enqueue-task (lambda ()
 							      (begin
-- 
2.43.0


From fa9c11daf5d97d43161c18c0e417ad3e161b2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 49/90] fix: every yield took stack that was only returned when
 no task was left

---
 lib/cml.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/cml.cora b/lib/cml.cora
index f8079b2..e011277 100644
--- a/lib/cml.cora
+++ b/lib/cml.cora
@@ -93,7 +93,7 @@
     (throw (lambda (k)
 	     (begin
 	       (enqueue (task-queue) (lambda () (k ())))
-	       (schedule-loop)))))
+	       (schedule)))))
 
 
   ;; the alternatives of a choice share one state: 'Wait, and 'Done when one of them is committed
-- 
2.43.0


From 52d0bf7a8c34a37e9f12e7fd03048c7d8a5c7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 50/90] fix: a channel kept every receiver or sender that
 another alternative had served

---
 lib/chan.cora | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/lib/chan.cora b/lib/chan.cora
index dbdc60f..596843d 100644
--- a/lib/chan.cora
+++ b/lib/chan.cora
@@ -6,39 +6,62 @@
   ;; channel is a sendq and recvq
   ;; sendq represent the coroutines blocked sending msg to the channel.
   ;; recvq represent the coroutines blocked recving msg from the channel.
+  ;; limit is the length of a queue at which its stale items are removed
   (defun chan-make ()
-    [(queue-make) (queue-make)])
+    (let limit (vector 1)
+	 (begin
+	  (vector-set! limit 0 16)
+	  [(queue-make) (queue-make) limit])))
+
+  (func remove-stale
+	q 0 => ()
+	q n => (let item (dequeue q)
+		    (begin
+		     (if (= 'Done (value (car item)))
+			 ()
+			 (enqueue q item))
+		     (remove-stale q (- n 1)))))
+
+  ;; items that wait in a choice are stale once another alternative is committed
+  (defun enqueue-item (q limit item)
+    (begin
+     (if (< (queue-len q) (vector-ref limit 0))
+	 ()
+	 (begin
+	  (remove-stale q (queue-len q))
+	  (vector-set! limit 0 (+ 16 (* 2 (queue-len q))))))
+     (enqueue q item)))
 
   (func recv-try
-	[sendq recvq] => (if (queue-empty? sendq)
+	[sendq recvq limit] => (if (queue-empty? sendq)
 			     false
 			     (match (dequeue sendq)
 			       [state resume val wrap]
 			       (if (= 'Done (value state))
-				   (recv-try [sendq recvq]) ;; ignore stale item and continue
+				   (recv-try [sendq recvq limit]) ;; ignore stale item and continue
 				   (begin
 				     (enqueue-task (lambda () (resume (lambda () (wrap ())))))
 				     (set state 'Done)
 				     [val])))))
 
-  (defun recv-block (recvq k wrap state)
-    (enqueue recvq [state k wrap]))
+  (defun recv-block (ch k wrap state)
+    (enqueue-item (cadr ch) (caddr ch) [state k wrap]))
 
   (defun default-wrap (x) x)
 
   ;; recv on channel is an operation
   (defun chan-recv (ch)
     (let try (lambda () (recv-try ch))
-      block (lambda (k wrap state) (recv-block (cadr ch) k wrap state))
+      block (lambda (k wrap state) (recv-block ch k wrap state))
       [try block default-wrap]))
 
   (func send-try
-	[sendq recvq] val => (if (queue-empty? recvq)
+	[sendq recvq limit] val => (if (queue-empty? recvq)
 				 false
 				 (match (dequeue recvq)
 					[state resume wrap]
 					(if (= 'Done (value state))
-					    (send-try [sendq recvq] val) ;; ignore stale
+					    (send-try [sendq recvq limit] val) ;; ignore stale
 					    (begin
 					      (enqueue-task (lambda ()
 							      (begin
@@ -47,13 +70,13 @@
 					      (set state 'Done)
 					      [()])))))
 
-  (defun send-block (sendq k val wrap state)
-    (enqueue sendq [state k val wrap]))
+  (defun send-block (ch k val wrap state)
+    (enqueue-item (car ch) (caddr ch) [state k val wrap]))
 
   ;; send on channel is an operation
   (defun chan-send (ch val)
     (let try (lambda () (send-try ch val))
-      block (lambda (k wrap state) (send-block (car ch) k val wrap state))
+      block (lambda (k wrap state) (send-block ch k val wrap state))
       [try block default-wrap]))
 
   )
-- 
2.43.0


From 20e05cd94e3059ba0042c5b030b5dd969e36e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 51/90] fix: match a string against input that is shorter

---
 lib/peg.cora | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index 091175b..fc98b16 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -58,7 +58,8 @@
 	       [] rem => ['ok rem]
 	       [h1 . t1] [h2 . t2] => (if (= h1 h2)
 					  (sub-list? t1 t2)
-					  ['fail]))
+					  ['fail])
+	       _ _ => ['fail])
 
 	 ;; matches string str
 	 (defun <string> (str)
-- 
2.43.0


From f3ec7a6bd4b38e9f57271c5016a932a6808a9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 52/90] fix: the not predicate used an unbound variable and
 consumed input

---
 lib/peg.cora | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index fc98b16..26b82d8 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -133,8 +133,8 @@
 	 (defun @! (p)
 	   (lambda (toks)
 	     (match (p toks)
-	       ['ok _ toks1] ['fail toks1]
-	       ['fail toks1] ['ok v toks1])))
+	       ['ok _ _] ['fail toks]
+	       ['fail _] ['ok () toks])))
 
 	 (defun recur-h (p toks res k)
 	   (match (p toks)
-- 
2.43.0


From 9a73b6a38cf13e2692b8ec35a0e023d2cab38c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 53/90] fix: a failed sequence handed the rest of its input to
 the next alternative

---
 lib/peg.cora | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/peg.cora b/lib/peg.cora
index 26b82d8..7579ba9 100644
--- a/lib/peg.cora
+++ b/lib/peg.cora
@@ -111,9 +111,9 @@
 	 (defun @seq (p1 p2)
 	   (lambda (toks)
 	     (match (p1 toks)
-	       ['fail toks] ['fail toks]
+	       ['fail _] ['fail toks]
 	       ['ok v1 toks1] (match (p2 toks1)
-				['fail toks2] ['fail toks2]
+				['fail _] ['fail toks]
 				['ok v2 toks2] ['ok (cons v1 v2) toks2]))))
 
 	 (func rewrite-@seq
@@ -175,7 +175,9 @@
 	 (defun $bind (p f)
 	   (lambda (toks)
 	     (match (p toks)
-	       ['ok v toks1] ((f v) toks1)
-	       ['fail toks1] ['fail toks1])))
+	       ['ok v toks1] (match ((f v) toks1)
+			       ['ok v2 toks2] ['ok v2 toks2]
+			       ['fail _] ['fail toks])
+	       ['fail _] ['fail toks])))
 
 	 )
-- 
2.43.0


From 622c6adc6b3fea6ab898d1c7cf94c846bf96152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 54/90] fix: a backslash was written as an apostrophe in xml

---
 lib/sxml.cora | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sxml.cora b/lib/sxml.cora
index d49b0f6..8f490da 100644
--- a/lib/sxml.cora
+++ b/lib/sxml.cora
@@ -57,7 +57,7 @@
 			(cond
 			 ((= c 34) (buffer-append buf "&quot;"))  ;; "
 			 ((= c 38) (buffer-append buf "&amp;"))  ;; &
-			 ((= c 92) (buffer-append buf "&apos;"))  ;; \
+			 ((= c 39) (buffer-append buf "&apos;"))  ;; '
 			 ((= c 60) (buffer-append buf "&lt;"))  ;; <
 			 ((= c 62) (buffer-append buf "&gt;"))  ;; >
 			 (true (buffer-append buf (string-index str i)))))
-- 
2.43.0


From 6b3c6222dc4049d923dbb7bdf77b007a1ffb891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 55/90] fix: pclose returned the bits of its status and not a
 number

---
 lib/os.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/os.c b/lib/os.c
index 84d0ef7..3e2f69a 100644
--- a/lib/os.c
+++ b/lib/os.c
@@ -45,7 +45,7 @@ pcloseFn(struct Cora *co, int label, Obj *R) {
 	Obj arg = R[1];
 	FILE *f = mustCObj(arg);
 	int res = pclose(f);
-	coraReturn(co, res);
+	coraReturn(co, makeNumber(res));
 }
 
 static struct registerModule osModule = {
-- 
2.43.0


From d134501e4a06f6abc926116eccb11f4123f587cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 56/90] fix: copy returned bits that are no value, and did not
 report a failed write

---
 lib/io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/io.c b/lib/io.c
index c10e6c1..7fdbf86 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -106,11 +106,15 @@ ioCopy(struct Cora *co, int label, Obj *R) {
 	while (!feof(from)) {
 		size_t sz = fread(buf, 1, BATCH_SIZE, from);
 		size_t done = fwrite(buf, 1, sz, to);
+		if (done < sz) {
+			coraReturn(co, False);
+			return;
+		}
 		if (sz < BATCH_SIZE) {
 			break;
 		}
 	}
-	coraReturn(co, feof(from));
+	coraReturn(co, feof(from) ? True : False);
 }
 
 static void
-- 
2.43.0


From be8404e2c6bdd48206f8534d23b33cd2694ddf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 57/90] fix: write-bytes did not end when the write failed

---
 lib/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index 7fdbf86..c4cb262 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -126,8 +126,8 @@ ioWrite(struct Cora *co, int label, Obj *R) {
 	size_t off = 0;
 	while (off < len) {
 		size_t sz = fwrite(data + off, 1, len - off, to);
-		if (sz < 0) {
-			coraReturn(co, makeNumber(sz));
+		if (sz == 0) {
+			coraReturn(co, makeNumber(-1));
 			return;
 		}
 		off += sz;
-- 
2.43.0


From 6ed4088810de271c84b695cef6218621bc1ef6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 58/90] fix: open-output-file returned a file that later calls
 crash on when it failed

---
 lib/io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/io.c b/lib/io.c
index c4cb262..273e851 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -57,6 +57,8 @@ builtinOpenOutputFile(struct Cora *co, int label, Obj *R) {
 	FILE *f = fopen(filePath.str, "w");
 	if (f == NULL) {
 		fprintf(stderr, "Failed to open file '%s', err: %s\n", filePath.str, strerror(errno));
+		coraReturn(co, Nil);
+		return;
 	}
 	coraReturn(co, makeCObj(f));
 	return;
-- 
2.43.0


From 09ec26947cca54295fca5dc70abbd4728394b7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 59/90] fix: popen returned a file that later calls crash on
 when it failed

---
 lib/os.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/os.c b/lib/os.c
index 3e2f69a..ff50a9e 100644
--- a/lib/os.c
+++ b/lib/os.c
@@ -36,6 +36,10 @@ popenFn(struct Cora *co, int label, Obj *R) {
 	strBuf cmdStr = cmdListStr(cmd);
 	FILE *f = popen(toCStr(cmdStr), type);
 	strFree(cmdStr);
+	if (f == NULL) {
+		coraReturn(co, Nil);
+		return;
+	}
 	coraReturn(co, makeCObj(f));
 	return;
 }
-- 
2.43.0


From 0ea235041ea9307ec5e3d6412788ccc06e80f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 60/90] fix: create the directories of a path of more than 1023
 bytes

---
 lib/io.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/io.c b/lib/io.c
index 273e851..7f85339 100644
--- a/lib/io.c
+++ b/lib/io.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 #include "str.h"
 #include <stdio.h>
+#include <string.h>
 #include <sys/errno.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -16,15 +17,15 @@ builtinDisplay(struct Cora *co, int label, Obj *R) {
 // Create directories recursively like mkdir -p
 static int
 mkdirP(const char *path) {
-	char tmp[1024];
 	size_t len;
 	char *p;
 
 	if (!path)
 		return -1;
 
-	snprintf(tmp, sizeof(tmp), "%s", path);
-	len = strlen(tmp);
+	len = strlen(path);
+	char tmp[len + 1];
+	memcpy(tmp, path, len + 1);
 
 	// remove trailing slash
 	if (len > 0 && (tmp[len - 1] == '/'))
-- 
2.43.0


From f9a19e000c532adae54d8f34408e98090e8f6055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 61/90] fix: the language of a code block was not an attribute
 of it

---
 lib/md4c/wrap.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index ad9015b..fda50e5 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -148,11 +148,10 @@ render_open_code_block(MD_HTML *r, const MD_BLOCK_CODE_DETAIL *det) {
 	/* If known, output the HTML 5 attribute class="language-LANGNAME". */
 	Obj attrs = Nil;
 	if (det->lang.text != NULL) {
-		attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, attrs, Nil));
 		coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("class"), Nil));
 		render_attribute(r, &det->lang, render_append_text1);
 		Obj tmp = coraReverse(r->co, coraSymbolGet(r->co, r->curr));
-		attrs = coraMakeCons(r->co, tmp, attrs);
+		attrs = coraMakeCons(r->co, intern("@"), coraMakeCons(r->co, tmp, Nil));
 	}
 
 	coraPrimSet(r->co, r->curr, coraMakeCons(r->co, intern("code"), Nil));
-- 
2.43.0


From 17028c71e017b045e662f8b6d83523a2455e1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:05 +0000
Subject: [PATCH 62/90] fix: only the first part of an attribute with escapes
 was used, and none of an empty one

---
 lib/md4c/wrap.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/md4c/wrap.c b/lib/md4c/wrap.c
index fda50e5..24770ef 100644
--- a/lib/md4c/wrap.c
+++ b/lib/md4c/wrap.c
@@ -76,6 +76,8 @@ static void
 render_attribute(MD_HTML *r, const MD_ATTRIBUTE *attr,
 	void (*fn_append)(MD_HTML *, const MD_CHAR *, MD_SIZE)) {
 	int i;
+	// The value of an attribute is one string, also when it has several parts.
+	strBuf value = strNew(16);
 
 	for (i = 0; attr->substr_offsets[i] < attr->size; i++) {
 		MD_TEXTTYPE type = attr->substr_types[i];
@@ -87,10 +89,12 @@ render_attribute(MD_HTML *r, const MD_ATTRIBUTE *attr,
 			// case MD_TEXT_NULLCHAR:  render_utf8_codepoint(r, 0x0000, render_verbatim); break;
 			// case MD_TEXT_ENTITY:    render_entity(r, text, size, fn_append); break;
 		default:
-			fn_append(r, text, size);
+			value = strCat(value, (str){.str = (char *)text, .len = size});
 			break;
 		}
 	}
+	fn_append(r, toCStr(value), strLen(toStr(value)));
+	strFree(value);
 }
 
 static void
-- 
2.43.0


From 9a3291d6305de035cb33a4eb9c7739061902e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 63/90] fix: an index of more than 31 bits found another
 element of a json array

---
 lib/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json.c b/lib/json.c
index a58cef7..7aa7e30 100644
--- a/lib/json.c
+++ b/lib/json.c
@@ -174,7 +174,7 @@ jsonArraySize(struct Cora *co, int label, Obj *R) {
 static void
 jsonArrayGet(struct Cora *co, int label, Obj *R) {
 	json_t *json = (json_t *)mustCObj(R[1]);
-	int idx = fixnum(R[2]);
+	size_t idx = fixnum(R[2]);
 	json_t *v = json_array_get(json, idx);
 	if (v == NULL) {
 		coraReturn(co, Nil);
-- 
2.43.0


From b98d69a4c4973b41b869a0104ecdcb240e048c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 64/90] fix: json-string-value of a value that is no string
 copied from a null pointer

---
 lib/json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/json.c b/lib/json.c
index 7aa7e30..b89e08e 100644
--- a/lib/json.c
+++ b/lib/json.c
@@ -94,6 +94,10 @@ jsonStringValue(struct Cora *co, int label, Obj *R) {
 	}
 	json_t *json = (json_t *)mustCObj(R[1]);
 	const char *s = json_string_value(json);
+	if (s == NULL) {
+		coraReturn(co, makeCString(co->gc, ""));
+		return;
+	}
 	size_t len = json_string_length(json);
 	coraReturn(co, makeString(co->gc, s, len));
 }
-- 
2.43.0


From 8ed67fca5940ffe2e7d197164e52dc9affe6f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 65/90] fix: a blank line after a list item's line at a certain
 offset ended the item

---
 lib/md4c/md4c.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index e16a20e..b58cd34 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -277,6 +277,10 @@ struct MD_CTX_tag {
 	int html_block_type;  /* For checking closing raw HTML condition. */
 	int last_line_has_list_loosening_effect;
 	int last_list_item_starts_with_two_blank_lines;
+
+	/* Where block_bytes ended after the last list item mark. Behind it there are
+	 * lines as well as blocks. */
+	int list_item_end;
 };
 
 enum MD_LINETYPE_tag {
@@ -5615,6 +5619,9 @@ md_push_container_bytes(MD_CTX *ctx, MD_BLOCKTYPE type, unsigned start,
 	block->data = data;
 	block->n_lines = start;
 
+	if (type == MD_BLOCK_LI)
+		ctx->list_item_end = ctx->n_block_bytes;
+
 abort:
 	return ret;
 }
@@ -6389,12 +6396,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 				 * item can begin with at most one blank line."
 				 */
 				if (n_parents > 0 && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK)) {
-					MD_BLOCK *top_block =
-						(MD_BLOCK *)((char *)
-								     ctx->block_bytes +
-							ctx->n_block_bytes -
-							sizeof(MD_BLOCK));
-					if (top_block->type == MD_BLOCK_LI)
+					if (ctx->n_block_bytes == ctx->list_item_end)
 						ctx->last_list_item_starts_with_two_blank_lines = TRUE;
 				}
 #endif
@@ -6408,12 +6410,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 			 * the end of the list. */
 			if (ctx->last_list_item_starts_with_two_blank_lines) {
 				if (n_parents > 0 && n_parents == ctx->n_containers && ctx->containers[n_parents - 1].ch != _T('>') && n_brothers + n_children == 0 && ctx->current_block == NULL && ctx->n_block_bytes > (int)sizeof(MD_BLOCK)) {
-					MD_BLOCK *top_block =
-						(MD_BLOCK *)((char *)
-								     ctx->block_bytes +
-							ctx->n_block_bytes -
-							sizeof(MD_BLOCK));
-					if (top_block->type == MD_BLOCK_LI) {
+					if (ctx->n_block_bytes == ctx->list_item_end) {
 						n_parents--;
 
 						line->indent = total_indent;
-- 
2.43.0


From eb7528914565ddb0b13df09308326e56215ad096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 66/90] fix: a fence outside of a quote or list item closed a
 code block in it

---
 lib/md4c/md4c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index b58cd34..ae1f216 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6313,7 +6313,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 
 			/* We are another MD_LINE_FENCEDCODE unless we are closing fence
 			 * which we transform into MD_LINE_BLANK. */
-			if (line->indent < ctx->code_indent_offset) {
+			if (line->indent < ctx->code_indent_offset && n_parents == ctx->n_containers) {
 				if (md_is_closing_code_fence(ctx, CH(pivot_line->beg), off, &off)) {
 					line->type = MD_LINE_BLANK;
 					ctx->last_line_has_list_loosening_effect = FALSE;
-- 
2.43.0


From caae52d694224a2c25f1b40b5c2a02d3932cd089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 67/90] fix: a line indented as far as code started an html
 block in a paragraph

---
 lib/md4c/md4c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index ae1f216..12e7fab 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6576,7 +6576,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 		}
 
 		/* Check for start of raw HTML block. */
-		if (off < ctx->size && CH(off) == _T('<') && !(ctx->parser.flags & MD_FLAG_NOHTMLBLOCKS)) {
+		if (line->indent < ctx->code_indent_offset && off < ctx->size && CH(off) == _T('<') && !(ctx->parser.flags & MD_FLAG_NOHTMLBLOCKS)) {
 			ctx->html_block_type =
 				md_is_html_block_start_condition(ctx, off);
 
-- 
2.43.0


From 66f7816ae2fa6547b7ad5f9ece1e670e0fea23e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 68/90] fix: a reference was not a link when an image followed
 at once

---
 lib/md4c/md4c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 12e7fab..7b223fa 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -3800,7 +3800,7 @@ md_resolve_links(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines) {
 			}
 		}
 
-		if (next_opener != NULL && next_opener->beg == closer->end) {
+		if (next_opener != NULL && next_opener->ch == '[' && next_opener->beg == closer->end) {
 			if (next_closer->beg > closer->end + 1) {
 				/* Might be full reference link. */
 				if (!(next_opener->flags &
-- 
2.43.0


From 5d4d6899d4b18f852abfd02eaa037061bf8afaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 69/90] fix: text after an empty list item in a quote was
 indented as if not in the quote

---
 lib/md4c/md4c.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 7b223fa..7f4f541 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6413,14 +6413,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 					if (ctx->n_block_bytes == ctx->list_item_end) {
 						n_parents--;
 
-						line->indent = total_indent;
-						if (n_parents > 0)
-							line->indent -=
-								MIN(line->indent,
-									ctx->containers
-										[n_parents -
-											1]
-											.contents_indent);
+						line->indent += ctx->containers[n_parents].contents_indent;
 					}
 				}
 
-- 
2.43.0


From 5ca21fa2c487984a6a65647a86288bf35324905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 70/90] fix: a list with a blank line after code or html in an
 item was tight

---
 lib/md4c/md4c.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 7f4f541..3929eed 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6357,6 +6357,8 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 					if (html_block_type == 6 || html_block_type == 7) {
 						line->type = MD_LINE_BLANK;
 						line->indent = 0;
+						ctx->last_line_has_list_loosening_effect =
+							(n_parents > 0 && n_brothers + n_children == 0 && ctx->containers[n_parents - 1].ch != _T('>'));
 						break;
 					}
 				}
@@ -6377,7 +6379,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 				else
 					line->indent = 0;
 				ctx->last_line_has_list_loosening_effect =
-					FALSE;
+					(n_parents > 0 && n_brothers + n_children == 0 && ctx->containers[n_parents - 1].ch != _T('>'));
 			} else {
 				line->type = MD_LINE_BLANK;
 				ctx->last_line_has_list_loosening_effect =
@@ -6692,8 +6694,10 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 
 	*p_end = off;
 
-	/* If we belong to a list after seeing a blank line, the list is loose. */
-	if (prev_line_has_list_loosening_effect && line->type != MD_LINE_BLANK && n_parents + n_brothers > 0) {
+	/* If we belong to a list after seeing a blank line, the list is loose, but
+	 * not when the blank line is one of a code block. */
+	if (prev_line_has_list_loosening_effect && line->type != MD_LINE_BLANK && n_parents + n_brothers > 0 &&
+		!(line->type == MD_LINE_INDENTEDCODE && pivot_line->type == MD_LINE_INDENTEDCODE)) {
 		MD_CONTAINER *c =
 			&ctx->containers[n_parents + n_brothers - 1];
 		if (c->ch != _T('>')) {
-- 
2.43.0


From fb8f86aa886e5ace523c7a84dad12df7d5acc6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 71/90] fix: a mark in a link's destination or label was paired
 with one outside of it

---
 lib/md4c/md4c.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 3929eed..a61d736 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -3665,6 +3665,15 @@ static void md_analyze_link_contents(MD_CTX *ctx, const MD_LINE *lines,
 	MD_SIZE n_lines, int mark_beg,
 	int mark_end);
 
+/* The marks inside of a link destination, title or label are plain text. */
+static void
+md_drop_marks(MD_CTX *ctx, int mark_index, OFF end) {
+	for (; mark_index < ctx->n_marks && ctx->marks[mark_index].beg < end; mark_index++) {
+		if (!(ctx->marks[mark_index].flags & MD_MARK_RESOLVED))
+			ctx->marks[mark_index].ch = 'D';
+	}
+}
+
 static int
 md_resolve_links(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines) {
 	int opener_index = ctx->unresolved_link_head;
@@ -3691,6 +3700,12 @@ md_resolve_links(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines) {
 			next_closer = NULL;
 		}
 
+		/* One of the brackets may have been eaten by another link. */
+		if (opener->ch == 'D' || closer->ch == 'D') {
+			opener_index = next_index;
+			continue;
+		}
+
 		/* If nested ("[ [ ] ]"), we need to make sure that:
 		 *   - The outer does not end inside of (...) belonging to the inner.
 		 *   - The outer cannot be link if the inner is link (i.e. not image).
@@ -3907,6 +3922,8 @@ md_resolve_links(MD_CTX *ctx, const MD_LINE *lines, MD_SIZE n_lines) {
 		}
 
 		if (is_link) {
+			md_drop_marks(ctx, closer_index + 1, closer->end);
+
 			/* Resolve the brackets as a link. */
 			opener->flags |= MD_MARK_OPENER | MD_MARK_RESOLVED;
 			closer->flags |= MD_MARK_CLOSER | MD_MARK_RESOLVED;
-- 
2.43.0


From c9cc6968eff8893c3dc2a8a5b1926db29fa3f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 72/90] fix: how much of a script's first line was skipped
 depended on uninitialized bytes

---
 main.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/main.c b/main.c
index 29714e0..5a0e7d4 100644
--- a/main.c
+++ b/main.c
@@ -57,16 +57,16 @@ shebang(Cora* co, int argc, char* argv[]) {
 	//
 	// (followed by cora script ...)
 	//
-	char buf[256];
-	while (true) {
-		char* line = fgets(buf, 256, f);
-		if (line == NULL) {
-			exit(-1);
-		}
-		// The length of the first line is more than 255 bytes.
-		if (buf[254] != '\n') {
-			break;
+	int ch = getc(f);
+	if (ch == '#') {
+		while (ch != '\n' && ch != EOF) {
+			ch = getc(f);
 		}
+	} else if (ch != EOF) {
+		ungetc(ch, f);
+	}
+	if (ferror(f)) {
+		exit(-1);
 	}
 
 	Obj args = Nil;
-- 
2.43.0


From 4c7960b42bdf339f27217d8946b337857481fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 73/90] fix: a host's partial or over-application lost its
 result, and each call leaked its frame

---
 src/runtime.c | 24 ++++++++++++++++++++++--
 src/runtime.h |  5 +++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/runtime.c b/src/runtime.c
index a827cc8..0d68587 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -74,8 +74,9 @@ coraNew() {
 
 static void coraGCFunc(GC *gc, void *data);
 
-void
-coraRun(Cora *co) {
+// The frame that the trampoline stops at.
+static void
+saveExit(Cora *co) {
 	Frame exit = {
 		.fn = NULL,
 		.label = 0,
@@ -83,7 +84,17 @@ coraRun(Cora *co) {
 		.sp = co->ctx.sp,
 	};
 	vecAppend(&co->callstack, exit);
+}
+
+void
+coraRun(Cora *co) {
+	if (co->exitSaved) {
+		co->exitSaved = false;
+	} else {
+		saveExit(co);
+	}
 
+	co->running++;
 	// trampoline
 	while (co->ctx.fn != NULL) {
 		co->ctx.fn(co, co->ctx.label, co->ctx.bp);
@@ -91,6 +102,7 @@ coraRun(Cora *co) {
 			gcMarkRoot(co->gc, coraGCFunc, co);
 		}
 	}
+	co->running--;
 }
 
 static void coraDispatch(Cora *co, Obj fn, int nargs, Obj *args);
@@ -102,6 +114,14 @@ static void coraDispatch(Cora *co, Obj fn, int nargs, Obj *args);
 // and once after stackAlloc() copy the the frame.
 void
 coraCall(Cora *co, Obj fn, int nargs, Obj *args) {
+	if (co->running == 0 && !co->exitSaved) {
+		// The host calls. Save where to exit to before anything of the call is on
+		// the stacks: a partial application returns to it at once, the rest of too
+		// many arguments is applied before it, and the callee's frame is spent
+		// when it's reached.
+		saveExit(co);
+		co->exitSaved = true;
+	}
 	struct scmNative *f = mustNative(fn);
 	if (f->required != nargs) {
 		// curry or partial, goto dispatch function
diff --git a/src/runtime.h b/src/runtime.h
index a963f65..c1c883e 100644
--- a/src/runtime.h
+++ b/src/runtime.h
@@ -53,6 +53,11 @@ struct Cora {
 	vector(Binding*) pkgs;
 	vector(struct tryMark) trystack;
 	GC *gc;
+
+	// How many coraRun are on the C stack, and whether the host's coraCall has
+	// saved the frame for the next one to exit to.
+	int running;
+	bool exitSaved;
 };
 
 Obj* stackAllocSlowPath(Cora *co, int n);
-- 
2.43.0


From 268959188bca86f8fb98546bda5fb7986cc50a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 74/90] fix: net-listen and net-dial leaked what they had
 opened when they failed

---
 lib/net.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/net.c b/lib/net.c
index c27ad3d..3aac92e 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -67,12 +67,14 @@ netListen(struct Cora *ctx, int label, Obj *R) {
 	addr.sin_port = htons(port);
 	if (bind(fd, (struct sockaddr *)&addr, sizeof(struct sockaddr_in)) < 0) {
 		fprintf(stderr, "bind error\n");
+		close(fd);
 		coraReturn(ctx, Nil);
 		return;
 	}
 
 	if (listen(fd, 200) < 0) {
 		fprintf(stderr, "listen error\n");
+		close(fd);
 		coraReturn(ctx, Nil);
 		return;
 	}
@@ -115,12 +117,12 @@ netDial(struct Cora *ctx, int label, Obj *R) {
 			break;
 		close(fd);
 	}
+	freeaddrinfo(result); /* No longer needed */
 	if (rp == NULL) {
 		fprintf(stderr, "Could not connect\n");
 		coraReturn(ctx, Nil);
 		return;
 	}
-	freeaddrinfo(result); /* No longer needed */
 	setNonBlock(fd);
 
 	coraReturn(ctx, makeNumber(fd));
-- 
2.43.0


From e0fe53248d145463804818a1964a5eb690e153c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 75/90] fix: net-recv never returned when the peer had closed
 the connection

---
 lib/net.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/net.c b/lib/net.c
index 3aac92e..6b0c747 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -174,7 +174,7 @@ netPoll(struct Cora *ctx, int label, Obj *R) {
 }
 
 // input: (net-recv fd buf pos)
-// output: [block pos] or [ok] or [err errno]
+// output: [block pos] or [ok] or [eof pos] or [err errno]
 static void
 netRecv(struct Cora *ctx, int label, Obj *R) {
 	Obj arg1 = R[1];
@@ -203,6 +203,12 @@ netRecv(struct Cora *ctx, int label, Obj *R) {
 			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(errno), Nil)));
 			return;
 		}
+		if (ret == 0) {
+			// The peer has closed, nothing more will come.
+			// [eof pos]
+			coraReturn(ctx, makeCons(ctx->gc, intern("eof"), makeCons(ctx->gc, makeNumber(pos), Nil)));
+			return;
+		}
 		pos = pos + ret;
 	}
 	// [ok]
-- 
2.43.0


From 8a97bef8ef1d5e19ba3c179341f63e282dc650c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 76/90] fix: net-send to a closed connection killed the process

---
 lib/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/net.c b/lib/net.c
index 6b0c747..c2d214b 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -143,7 +143,7 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 	/* printf("call net send fd ===%d\n", fd); */
 
 	while (pos < len) {
-		int ret = send(fd, buf + pos, len - pos, 0);
+		int ret = send(fd, buf + pos, len - pos, MSG_NOSIGNAL);
 		if (ret < 0) {
 			if (errno == EAGAIN || errno == EWOULDBLOCK) {
 				/* printf("EAGAIN here...%d\n", pos); */
-- 
2.43.0


From 2e0f4b6385f1f9d78f264a98571ddbd81a2af9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 77/90] fix: net-send and net-recv returned the errno of the
 message they print

---
 lib/net.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/net.c b/lib/net.c
index c2d214b..bd0a30e 100644
--- a/lib/net.c
+++ b/lib/net.c
@@ -153,9 +153,10 @@ netSend(struct Cora *ctx, int label, Obj *R) {
 				coraReturn(ctx, makeCons(ctx->gc, intern("block"), makeCons(ctx->gc, makeNumber(pos), Nil)));
 				return;
 			}
-			// [err errno]
-			printf("netSend error %d\n", errno);
-			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(errno), Nil)));
+			// [err errno], printf may change errno
+			int err = errno;
+			printf("netSend error %d\n", err);
+			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(err), Nil)));
 			return;
 		}
 		pos = pos + ret;
@@ -197,10 +198,11 @@ netRecv(struct Cora *ctx, int label, Obj *R) {
 				coraReturn(ctx, makeCons(ctx->gc, intern("block"), makeCons(ctx->gc, makeNumber(pos), Nil)));
 				return;
 			}
-			// [err errno]
-			printf("netRecv error %d\n", errno);
+			// [err errno], printf may change errno
+			int err = errno;
+			printf("netRecv error %d\n", err);
 			perror("recv error");
-			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(errno), Nil)));
+			coraReturn(ctx, makeCons(ctx->gc, intern("err"), makeCons(ctx->gc, makeNumber(err), Nil)));
 			return;
 		}
 		if (ret == 0) {
-- 
2.43.0


From 6cc488d0a5b7fd762eed3d312a7228a968264430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 78/90] fix: an error of a connection was taken for an
 operation that would block

---
 lib/async.cora | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index dcb20de..1118276 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -129,7 +129,7 @@
 	[conn buf pos] k wrap => (begin
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
-				    [block pos] (begin
+				    ['block pos] (begin
 						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k wrap)))
 						 ;; (display "recv-handler block and go to scheduler\n")
 						 (schedule)
@@ -162,7 +162,7 @@
 
   (func send-handler
 	[conn buf pos] k wrap => (match (net-send (conn-fd conn) buf pos)
-				   [block pos] (begin
+				   ['block pos] (begin
 						(event-loop-add conn 'write (lambda (conn)
 									      (send-handler [conn buf pos] k wrap)))
 						;; (display "send-handler block and go to schedule\n")
@@ -185,7 +185,7 @@
   (defun send-op (conn buf pos)
     (let try (lambda ()
 	       (match (net-send (conn-fd conn) buf pos)
-		      [block pos] (begin
+		      ['block pos] (begin
 				   (conn-set-extra! conn pos)
 				   false)
 		      res [res]))
-- 
2.43.0


From 0c656e25fcd99f9022a611f17f2c1cae5adbf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 79/90] fix: a connection that blocks again ran the scheduler
 inside of the handler of its event

---
 lib/async.cora | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 1118276..b0a1491 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -130,11 +130,8 @@
 			     ;; (display "run in recv-handler\n")
 			     (match (net-recv (conn-fd conn) buf pos)
 				    ['block pos] (begin
-						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k wrap)))
-						 ;; (display "recv-handler block and go to scheduler\n")
-						 (schedule)
-						 ;; (display "finish schedule in recv-handler")
-						 )
+						 ;; back to the scheduler that called the handler
+						 (event-loop-add conn 'read (lambda (conn) (recv-handler [conn buf pos] k wrap))))
 				    res (begin
 					 (conn-set-read-callback! conn ())
 					 ;; (display "before recv handler direct return\n")
@@ -163,12 +160,9 @@
   (func send-handler
 	[conn buf pos] k wrap => (match (net-send (conn-fd conn) buf pos)
 				   ['block pos] (begin
+						;; back to the scheduler that called the handler
 						(event-loop-add conn 'write (lambda (conn)
-									      (send-handler [conn buf pos] k wrap)))
-						;; (display "send-handler block and go to schedule\n")
-						(schedule)
-						;; (display "finish send-handler\n")
-						)
+									      (send-handler [conn buf pos] k wrap))))
 				   res (begin
 					(conn-set-write-callback! conn ())
 					;; remove writable event registry from event loop,
-- 
2.43.0


From 9ed585311aa84fe9231da30e92fb05a944f2ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 80/90] fix: the second send on a connection that had to wait
 was never woken

---
 lib/async.cora | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/async.cora b/lib/async.cora
index b0a1491..5cf91e7 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -172,7 +172,9 @@
 					     new-mode (filter
 						       (lambda (m) (not (= 'write m)))
 						       old-mode)
-					     (net-poll-mod fd new-mode conn))
+					     (begin
+					      (net-poll-mod fd new-mode conn)
+					      (conn-set-mode! conn new-mode)))
 					(spawn (lambda () (k (lambda () (wrap res)))))))
 	_ k wrap => (display "wrong argument for send-handler\n"))
 
-- 
2.43.0


From 742188ab3450c541ea3d87cf673020083546884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 81/90] fix: a dial, listen or accept that failed gave a
 connection without a descriptor

---
 lib/async.cora | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 5cf91e7..d1578c6 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -107,10 +107,7 @@
 
   (defun listen (addr)
     (let fd (net-listen addr)
-	 (begin
-	  ;; (display fd)
-	  ;; (display "here in listen?\n")
-	  (conn-make fd))))
+	 (if (null? fd) () (conn-make fd))))
 
   (defun conn-close (conn)
     (if (conn-not-in-event-loop? conn)
@@ -123,7 +120,7 @@
 
   (defun dial (addr)
     (let fd (net-dial addr)
-	 (conn-make fd)))
+	 (if (null? fd) () (conn-make fd))))
 
   (func recv-handler
 	[conn buf pos] k wrap => (begin
@@ -205,29 +202,25 @@
       ;; (display "send success!\n")
       ))
 
+  (defun accept-handler (ln k wrap)
+    (let new-fd (net-accept (conn-fd ln))
+	 (if (null? new-fd)
+	     ;; the connection is gone already, wait for another
+	     (event-loop-add ln 'read (lambda (ln) (accept-handler ln k wrap)))
+	     (let new-conn (conn-make new-fd)
+		  (spawn (lambda () (k (lambda () (wrap new-conn)))))))))
+
   (defun accept-op (ln)
     (let try (lambda () false)
 	 block (lambda (k wrap state)
-		 (begin
-		  ;; (display "accept-op\n")
-		  (event-loop-add ln 'read (lambda (conn)
-					     (begin
-					      ;; (display "here in accept callback!\n")
-					      (conn-set-read-callback! conn ())
-					      (if (= 'Done (value state))
-						  ()
-						  (begin
-						   (set state 'Done)
-						   (let fd (conn-fd conn)
-							new-fd (net-accept fd)
-							new-conn (conn-make new-fd)
-							(begin
-							 ;; (display new-fd)
-							 ;; (display "before accept spawn\n")
-							 (spawn (lambda ()
-								  (begin
-								   ;; (display "accept spawn called\n")
-								   (k (lambda () (wrap new-conn)))))))))))))))
+		 (event-loop-add ln 'read (lambda (ln)
+					    (begin
+					     (conn-set-read-callback! ln ())
+					     (if (= 'Done (value state))
+						 ()
+						 (begin
+						  (set state 'Done)
+						  (accept-handler ln k wrap)))))))
 	 [try block default-wrap]))
 
   (defun accept (ln)
-- 
2.43.0


From c7e8b649a218be1fb482357533da72e4111a9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 82/90] fix: an event that nobody waits for kept the event loop
 busy

---
 lib/async.cora | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index d1578c6..04d2ee5 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -105,6 +105,20 @@
 		    (conn-set-mode! conn new-mode))))
 	     (display "event loop add no action!\n")))))
 
+  ;; event-loop-remove ends the interest in a mode: the events are level triggered, and
+  ;; come again and again while nobody handles them.
+  (defun event-loop-remove (conn mode)
+    (if (conn-not-in-event-loop? conn)
+	()
+	(let new-mode (filter (lambda (m) (not (= mode m))) (conn-mode conn))
+	     (begin
+	      (conn-set-mode! conn new-mode)
+	      (if (null? new-mode)
+		  (begin
+		   (net-poll-del (conn-fd conn))
+		   (del-from-event-loop-conns conn))
+		  (net-poll-mod (conn-fd conn) new-mode conn))))))
+
   (defun listen (addr)
     (let fd (net-listen addr)
 	 (if (null? fd) () (conn-make fd))))
@@ -164,14 +178,7 @@
 					(conn-set-write-callback! conn ())
 					;; remove writable event registry from event loop,
 					;; because we'll get too noisy notifications, writable is almost always true
-					(let fd (conn-fd conn)
-					     old-mode (conn-mode conn)
-					     new-mode (filter
-						       (lambda (m) (not (= 'write m)))
-						       old-mode)
-					     (begin
-					      (net-poll-mod fd new-mode conn)
-					      (conn-set-mode! conn new-mode)))
+					(event-loop-remove conn 'write)
 					(spawn (lambda () (k (lambda () (wrap res)))))))
 	_ k wrap => (display "wrong argument for send-handler\n"))
 
@@ -252,13 +259,7 @@
 				   (cond
 				     ((and (= mode 'read) (not (null? read-handler))) (read-handler conn))
 				     ((and (= mode 'write) (not (null? write-handler))) (write-handler conn))
-				     (true (begin
-					    (display "poll get event ")
-					    (display mode)
-					    (display "but callback is not set")
-					    (display "fd=")
-					    (display (conn-fd conn))
-					    (display "\n"))))))
+				     (true (event-loop-remove conn mode)))))
 			    events)
 		  (display "handle net-poll events done, --- return true!\n")
 		  true)))))
-- 
2.43.0


From 5e5563e3187cdd1c57f1240ce4d3959328bcc3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 83/90] fix: the event loop printed its progress into the
 output of the program

---
 lib/async.cora | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/async.cora b/lib/async.cora
index 04d2ee5..ee1c953 100644
--- a/lib/async.cora
+++ b/lib/async.cora
@@ -103,7 +103,7 @@
 		   (begin
 		    (net-poll-mod (conn-fd conn) new-mode conn)
 		    (conn-set-mode! conn new-mode))))
-	     (display "event loop add no action!\n")))))
+	     ()))))
 
   ;; event-loop-remove ends the interest in a mode: the events are level triggered, and
   ;; come again and again while nobody handles them.
@@ -244,13 +244,10 @@
 
   (defun scheduler (timeout)
     (if (blocked-queue-empty?)
-	(begin
-	 (display "block queue empty --- return false!!\n")
-	 false) ;; no more task
+	false ;; no more task
 	(let events (net-poll timeout)
 	     (or (null? events)
 		 (begin
-		  (display "net-poll once, and scheduler handle ready events\n")
 		  (for-each (lambda (events)
 			      (let conn (car events)
 				   mode (cdr events)
@@ -261,7 +258,6 @@
 				     ((and (= mode 'write) (not (null? write-handler))) (write-handler conn))
 				     (true (event-loop-remove conn mode)))))
 			    events)
-		  (display "handle net-poll events done, --- return true!\n")
 		  true)))))
 
   ;; event-loop-init initializes the thread local event loop
@@ -270,7 +266,6 @@
     (let el (create-event-loop-conns)
 	 (begin
 	  (net-poll-fd-init)
-	  (display "event loop init!!!!!!\n")
 	  (thread-local-set 'cora/lib/async#event-loop el)
 	  (register-scheduler scheduler))))
 
-- 
2.43.0


From 53e389b289885e7a0a65758d95d5ffe7e6a22d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 84/90] fix: a traced function with a long name aborted

---
 lib/trace.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/trace.c b/lib/trace.c
index 3b03894..3333735 100644
--- a/lib/trace.c
+++ b/lib/trace.c
@@ -22,8 +22,10 @@ traceWrap(struct Cora *co, int label, Obj *R) {
 	Obj *data = nativeData(R[0]);
 	struct scmNative *origin = mustNative(data[0]);
 	Obj sym = data[1];
+	char tmp[64];
 	char dest[256];
-	symbolStr(sym, dest, 256);
+	// a record has room for 255 bytes of the name
+	snprintf(dest, sizeof(dest), "%s", symbolName(sym, tmp, sizeof(tmp)).str);
 	TRACE_SCOPE(dest);
 	R[0] = data[0];
 	origin->fn(co, label, R);
-- 
2.43.0


From 661a67011775fc80c82a0fc2c698842efd4fe6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:18 +0000
Subject: [PATCH 85/90] fix: a trace that was followed by another one lost its
 last records

---
 src/trace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trace.c b/src/trace.c
index 1f33343..a5e9485 100644
--- a/src/trace.c
+++ b/src/trace.c
@@ -17,6 +17,8 @@ traceClose() {
 
 void
 traceInit(const char *path) {
+	// what is in the buffer belongs to the previous file
+	traceClose();
 	trace_file = fopen(path, "wb");
 	trace_offset = 0;
 	atexit(traceClose);
-- 
2.43.0


From 1c7487998d78f22c15bd23d73a5ec280509fbc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 86/90] fix: compiled partial application of a primitive
 evaluated its arguments at the call

(+ (f x)) became (lambda (tmp) (+ (f x) tmp)): the effects of (f x) came late,
never, or once for each call. The interpreter evaluates them at once.
---
 init.c       | 3810 ++++++++++----------
 lib/toc.c    | 9422 +++++++++++++++++++++++++-------------------------
 lib/toc.cora |   10 +-
 3 files changed, 6660 insertions(+), 6582 deletions(-)

diff --git a/init.c b/init.c
index b339db2..98dc322 100644
--- a/init.c
+++ b/init.c
@@ -281,316 +281,316 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514747_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3514750_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3514753_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3514756_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3514759_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3514763_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3514768_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3514772_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3514780_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3514782_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3514787_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3514840_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3514843_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3514846_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3514849_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3514852_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3514856_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3514861_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3514865_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3514873_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3514875_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3514880_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun100, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3515274_37= co->res;
-Obj v__3515280_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
-Obj v__3515292_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
-Obj v__3515293_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3515294_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515293_37);
-Obj v__3515295_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515294_37);
-Obj v__3515296_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3515297_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515296_37);
-Obj v__3515298_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515297_37);
-Obj v__3515299_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3515300_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515299_37);
-Obj v__3515301_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515300_37);
-Obj v__3515302_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3515303_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515302_37);
-Obj v__3515304_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515303_37);
-Obj v__3515305_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3515306_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515305_37);
-Obj v__3515307_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515306_37);
-Obj v__3515308_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3515309_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515308_37);
-Obj v__3515310_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515309_37);
-Obj v__3515311_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3515312_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515311_37);
-Obj v__3515313_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515312_37);
-Obj v__3515314_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3515315_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515314_37);
-Obj v__3515316_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515315_37);
-Obj v__3515317_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3515318_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515317_37);
-Obj v__3515319_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515318_37);
-Obj v__3515320_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3515321_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515320_37);
-Obj v__3515322_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515321_37);
-Obj v__3515323_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3515324_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515323_37);
-Obj v__3515325_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515324_37);
-Obj v__3515326_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3515327_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515326_37);
-Obj v__3515328_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515327_37);
-Obj v__3515329_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3515330_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515329_37);
-Obj v__3515331_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515330_37);
-Obj v__3515332_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3515333_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515332_37);
-Obj v__3515334_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515333_37);
-Obj v__3515335_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3515336_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515335_37);
-Obj v__3515337_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515336_37);
-Obj v__3515338_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3515339_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515338_37);
-Obj v__3515340_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515339_37);
-Obj v__3515341_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3515342_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515341_37);
-Obj v__3515343_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515342_37);
-Obj v__3515344_37 = makeCons(co->gc, v__3515343_37, Nil);
-Obj v__3515345_37 = makeCons(co->gc, v__3515340_37, v__3515344_37);
-Obj v__3515346_37 = makeCons(co->gc, v__3515337_37, v__3515345_37);
-Obj v__3515347_37 = makeCons(co->gc, v__3515334_37, v__3515346_37);
-Obj v__3515348_37 = makeCons(co->gc, v__3515331_37, v__3515347_37);
-Obj v__3515349_37 = makeCons(co->gc, v__3515328_37, v__3515348_37);
-Obj v__3515350_37 = makeCons(co->gc, v__3515325_37, v__3515349_37);
-Obj v__3515351_37 = makeCons(co->gc, v__3515322_37, v__3515350_37);
-Obj v__3515352_37 = makeCons(co->gc, v__3515319_37, v__3515351_37);
-Obj v__3515353_37 = makeCons(co->gc, v__3515316_37, v__3515352_37);
-Obj v__3515354_37 = makeCons(co->gc, v__3515313_37, v__3515353_37);
-Obj v__3515355_37 = makeCons(co->gc, v__3515310_37, v__3515354_37);
-Obj v__3515356_37 = makeCons(co->gc, v__3515307_37, v__3515355_37);
-Obj v__3515357_37 = makeCons(co->gc, v__3515304_37, v__3515356_37);
-Obj v__3515358_37 = makeCons(co->gc, v__3515301_37, v__3515357_37);
-Obj v__3515359_37 = makeCons(co->gc, v__3515298_37, v__3515358_37);
-Obj v__3515360_37 = makeCons(co->gc, v__3515295_37, v__3515359_37);
-Obj v__3515361_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515360_37);
-Obj v__3515376_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
-Obj v__3515380_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
-Obj v__3515558_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
-Obj v__3515559_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3515560_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515559_37);
-Obj v__3515561_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515560_37);
-Obj v__3515562_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515561_37);
-Obj v__3515563_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515562_37);
-Obj v__3515564_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3515563_37);
-Obj v__3515565_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3515564_37);
-Obj v__3515566_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515565_37);
-Obj v__3515567_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515566_37);
-Obj v__3515568_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515567_37);
-Obj v__3515569_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515568_37);
-Obj v__3515570_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515569_37);
-Obj v__3515571_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515570_37);
-Obj v__3515572_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515571_37);
-Obj v__3515573_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515572_37);
-Obj v__3515574_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515573_37);
-Obj v__3515575_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515574_37);
-Obj v__3515576_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515575_37);
-Obj v__3515577_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515576_37);
-Obj v__3515578_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515577_37);
-Obj v__3515579_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515578_37);
-Obj v__3515580_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515579_37);
-Obj v__3515581_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515580_37);
-Obj v__3515582_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515581_37);
-Obj v__3515583_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515582_37);
-Obj v__3515584_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515583_37);
-Obj v__3515585_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3515584_37);
-Obj v__3515586_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515585_37);
-Obj v__3515587_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3515586_37);
-Obj v__3515588_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515587_37);
-Obj v__3515589_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515588_37);
-Obj v__3515590_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515589_37);
-Obj v__3515591_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515590_37);
-Obj v__3515592_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515591_37);
-Obj v__3515593_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515592_37);
-Obj v__3515594_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515593_37);
-Obj v__3515595_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515594_37);
-Obj v__3515596_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515595_37);
-Obj v__3515597_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515596_37);
-Obj v__3515598_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3515599_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3515600_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3515601_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3515602_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3515603_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3515604_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3515605_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
-Obj v__3515606_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3515607_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
-Obj v__3515608_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
-Obj v__3515609_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3515610_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3515611_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3515612_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3515613_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3515614_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3515615_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3515616_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3515617_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3515618_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3515619_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3515620_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3515621_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3515622_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3515623_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3515624_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3515625_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3515626_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3515627_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3515628_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3515629_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
-Obj v__3515630_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
-Obj v__3515631_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
-Obj v__3515632_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
-Obj v__3515633_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3515634_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3515635_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3515636_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3515636_37);
+Obj v__3515367_37= co->res;
+Obj v__3515373_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
+Obj v__3515385_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
+Obj v__3515386_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3515387_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515386_37);
+Obj v__3515388_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515387_37);
+Obj v__3515389_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3515390_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515389_37);
+Obj v__3515391_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515390_37);
+Obj v__3515392_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3515393_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515392_37);
+Obj v__3515394_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515393_37);
+Obj v__3515395_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3515396_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515395_37);
+Obj v__3515397_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515396_37);
+Obj v__3515398_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3515399_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515398_37);
+Obj v__3515400_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515399_37);
+Obj v__3515401_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3515402_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515401_37);
+Obj v__3515403_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515402_37);
+Obj v__3515404_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3515405_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515404_37);
+Obj v__3515406_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515405_37);
+Obj v__3515407_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3515408_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515407_37);
+Obj v__3515409_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515408_37);
+Obj v__3515410_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3515411_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515410_37);
+Obj v__3515412_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515411_37);
+Obj v__3515413_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3515414_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515413_37);
+Obj v__3515415_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515414_37);
+Obj v__3515416_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3515417_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515416_37);
+Obj v__3515418_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515417_37);
+Obj v__3515419_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3515420_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515419_37);
+Obj v__3515421_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515420_37);
+Obj v__3515422_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3515423_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515422_37);
+Obj v__3515424_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515423_37);
+Obj v__3515425_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3515426_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515425_37);
+Obj v__3515427_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515426_37);
+Obj v__3515428_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3515429_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515428_37);
+Obj v__3515430_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515429_37);
+Obj v__3515431_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3515432_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515431_37);
+Obj v__3515433_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515432_37);
+Obj v__3515434_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3515435_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515434_37);
+Obj v__3515436_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515435_37);
+Obj v__3515437_37 = makeCons(co->gc, v__3515436_37, Nil);
+Obj v__3515438_37 = makeCons(co->gc, v__3515433_37, v__3515437_37);
+Obj v__3515439_37 = makeCons(co->gc, v__3515430_37, v__3515438_37);
+Obj v__3515440_37 = makeCons(co->gc, v__3515427_37, v__3515439_37);
+Obj v__3515441_37 = makeCons(co->gc, v__3515424_37, v__3515440_37);
+Obj v__3515442_37 = makeCons(co->gc, v__3515421_37, v__3515441_37);
+Obj v__3515443_37 = makeCons(co->gc, v__3515418_37, v__3515442_37);
+Obj v__3515444_37 = makeCons(co->gc, v__3515415_37, v__3515443_37);
+Obj v__3515445_37 = makeCons(co->gc, v__3515412_37, v__3515444_37);
+Obj v__3515446_37 = makeCons(co->gc, v__3515409_37, v__3515445_37);
+Obj v__3515447_37 = makeCons(co->gc, v__3515406_37, v__3515446_37);
+Obj v__3515448_37 = makeCons(co->gc, v__3515403_37, v__3515447_37);
+Obj v__3515449_37 = makeCons(co->gc, v__3515400_37, v__3515448_37);
+Obj v__3515450_37 = makeCons(co->gc, v__3515397_37, v__3515449_37);
+Obj v__3515451_37 = makeCons(co->gc, v__3515394_37, v__3515450_37);
+Obj v__3515452_37 = makeCons(co->gc, v__3515391_37, v__3515451_37);
+Obj v__3515453_37 = makeCons(co->gc, v__3515388_37, v__3515452_37);
+Obj v__3515454_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515453_37);
+Obj v__3515469_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
+Obj v__3515473_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
+Obj v__3515651_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
+Obj v__3515652_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3515653_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515652_37);
+Obj v__3515654_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515653_37);
+Obj v__3515655_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515654_37);
+Obj v__3515656_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515655_37);
+Obj v__3515657_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3515656_37);
+Obj v__3515658_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3515657_37);
+Obj v__3515659_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515658_37);
+Obj v__3515660_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515659_37);
+Obj v__3515661_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515660_37);
+Obj v__3515662_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515661_37);
+Obj v__3515663_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515662_37);
+Obj v__3515664_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515663_37);
+Obj v__3515665_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515664_37);
+Obj v__3515666_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515665_37);
+Obj v__3515667_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515666_37);
+Obj v__3515668_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515667_37);
+Obj v__3515669_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515668_37);
+Obj v__3515670_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515669_37);
+Obj v__3515671_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515670_37);
+Obj v__3515672_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515671_37);
+Obj v__3515673_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515672_37);
+Obj v__3515674_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515673_37);
+Obj v__3515675_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515674_37);
+Obj v__3515676_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515675_37);
+Obj v__3515677_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515676_37);
+Obj v__3515678_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3515677_37);
+Obj v__3515679_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515678_37);
+Obj v__3515680_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3515679_37);
+Obj v__3515681_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515680_37);
+Obj v__3515682_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515681_37);
+Obj v__3515683_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515682_37);
+Obj v__3515684_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515683_37);
+Obj v__3515685_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515684_37);
+Obj v__3515686_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515685_37);
+Obj v__3515687_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515686_37);
+Obj v__3515688_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515687_37);
+Obj v__3515689_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515688_37);
+Obj v__3515690_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515689_37);
+Obj v__3515691_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3515692_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3515693_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3515694_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3515695_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3515696_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3515697_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3515698_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj v__3515699_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3515700_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj v__3515701_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj v__3515702_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3515703_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3515704_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3515705_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3515706_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3515707_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3515708_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3515709_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3515710_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3515711_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3515712_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3515713_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3515714_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3515715_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3515716_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3515717_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3515718_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3515719_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3515720_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3515721_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3515722_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj v__3515723_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj v__3515724_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj v__3515725_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj v__3515726_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3515727_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3515728_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3515729_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3515729_37);
 return;
 }
 case 2:
 {
-Obj v__3515224_37= co->res;
-Obj v__3515253_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
-Obj v__3515254_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3515317_37= co->res;
+Obj v__3515346_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
+Obj v__3515347_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
 saveCont(co, clofun100, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun84, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3515207_37= co->res;
-Obj v__3515221_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3515300_37= co->res;
+Obj v__3515314_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun77, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3515185_37= co->res;
-Obj v__3515205_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3515278_37= co->res;
+Obj v__3515298_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
 saveCont(co, clofun100, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun75, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3515154_37= co->res;
-Obj v__3515155_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
-Obj v__3515156_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
-Obj v__3515159_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
-Obj v__3515183_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
+Obj v__3515247_37= co->res;
+Obj v__3515248_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3515249_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v__3515252_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
+Obj v__3515276_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
 saveCont(co, clofun100, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3515047_37= co->res;
-Obj v__3515099_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
-Obj v__3515100_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
-Obj v__3515105_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3515109_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3515110_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
-Obj v__3515118_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj v__3515119_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
-Obj v__3515125_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
-Obj v__3515136_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3515142_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
+Obj v__3515140_37= co->res;
+Obj v__3515192_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
+Obj v__3515193_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
+Obj v__3515198_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3515202_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3515203_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
+Obj v__3515211_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj v__3515212_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3515218_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
+Obj v__3515229_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3515235_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
 saveCont(co, clofun100, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun65, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3514934_37= co->res;
-Obj v__3514956_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3514989_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3515002_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3515024_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3515042_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
-Obj v__3515046_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3515027_37= co->res;
+Obj v__3515049_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3515082_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3515095_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3515117_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3515135_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
+Obj v__3515139_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
 saveCont(co, clofun100, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun50, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3514919_37= co->res;
-Obj v__3514922_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3514932_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3515012_37= co->res;
+Obj v__3515015_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3515025_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun100, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3514905_37= co->res;
-Obj v__3514917_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3514998_37= co->res;
+Obj v__3515010_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun100, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3514891_37= co->res;
-Obj v__3514903_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3514984_37= co->res;
+Obj v__3514996_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun100, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3514877_37= co->res;
+Obj v__3514970_37= co->res;
 saveCont(co, clofun100, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3514855_37= co->res;
-Obj v__3514860_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3514863_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3514875_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3514948_37= co->res;
+Obj v__3514953_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3514956_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3514968_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun100, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3514845_37= co->res;
+Obj v__3514938_37= co->res;
 saveCont(co, clofun100, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3514843_37= co->res;
+Obj v__3514936_37= co->res;
 saveCont(co, clofun100, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3514788_37= co->res;
-Obj v__3514789_37 = primSet(co, getBinding(co, packageID, 150).name, v__3514788_37);
-Obj v__3514795_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3514796_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3514797_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
-Obj v__3514798_37 = primGenSym(co);
-Obj v__3514799_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514798_37);
-Obj v__3514803_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3514812_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3514813_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3514830_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3514831_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
-Obj v__3514842_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3514881_37= co->res;
+Obj v__3514882_37 = primSet(co, getBinding(co, packageID, 150).name, v__3514881_37);
+Obj v__3514888_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3514889_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3514890_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj v__3514891_37 = primGenSym(co);
+Obj v__3514892_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514891_37);
+Obj v__3514896_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3514905_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3514906_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3514923_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3514924_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj v__3514935_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun100, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
@@ -602,67 +602,67 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514571_37 = R[1];
-Obj v__3514572_37 = R[2];
-Obj v__3514573_37 = R[3];
-Obj v__3514574_37 = R[4];
-Obj v__3514719_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3514571_37, v__3514572_37, v__3514573_37, v__3514574_37);
-R[1] = v__3514574_37;
-R[2] = v__3514719_37;
+Obj v__3514664_37 = R[1];
+Obj v__3514665_37 = R[2];
+Obj v__3514666_37 = R[3];
+Obj v__3514667_37 = R[4];
+Obj v__3514812_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3514664_37, v__3514665_37, v__3514666_37, v__3514667_37);
+R[1] = v__3514667_37;
+R[2] = v__3514812_37;
 saveCont(co, clofun99, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514574_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514667_37);
 return;
 }
 case 1:
 {
-Obj v__3515557_37= co->res;
-Obj v__3514719_37 = R[1];
-if (True == v__3515557_37) {
+Obj v__3515650_37= co->res;
+Obj v__3514812_37 = R[1];
+if (True == v__3515650_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514719_37, True);
+coraCall1(co, v__3514812_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514719_37, False);
+coraCall1(co, v__3514812_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3515556_37= co->res;
-Obj v__3514574_37 = R[1];
-Obj v__3514719_37 = R[2];
-if (True == v__3515556_37) {
+Obj v__3515649_37= co->res;
+Obj v__3514667_37 = R[1];
+Obj v__3514812_37 = R[2];
+if (True == v__3515649_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514719_37, True);
+coraCall1(co, v__3514812_37, True);
 return;
 } else {
-R[1] = v__3514719_37;
+R[1] = v__3514812_37;
 saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514574_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514667_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3515554_37= co->res;
-Obj v__3514574_37 = R[1];
-Obj v__3514719_37 = R[2];
-if (True == v__3515554_37) {
+Obj v__3515647_37= co->res;
+Obj v__3514667_37 = R[1];
+Obj v__3514812_37 = R[2];
+if (True == v__3515647_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514719_37, True);
+coraCall1(co, v__3514812_37, True);
 return;
 } else {
-Obj v__3515555_37 = primIsString(v__3514574_37);
-if (True == v__3515555_37) {
+Obj v__3515648_37 = primIsString(v__3514667_37);
+if (True == v__3515648_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514719_37, True);
+coraCall1(co, v__3514812_37, True);
 return;
 } else {
-R[1] = v__3514574_37;
-R[2] = v__3514719_37;
+R[1] = v__3514667_37;
+R[2] = v__3514812_37;
 saveCont(co, clofun99, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3514574_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3514667_37);
 return;
 }
 }
@@ -674,49 +674,49 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514718_37 = R[1];
-if (True == v__3514718_37) {
+Obj v__3514811_37 = R[1];
+if (True == v__3514811_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3514720_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3515542_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3515542_37) {
-Obj v__3515543_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3515544_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515543_37);
-if (True == v__3515544_37) {
-Obj v__3515545_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515546_37 = PRIM_ISCONS(v__3515545_37);
-if (True == v__3515546_37) {
-Obj v__3515547_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515548_37 = PRIM_CAR(v__3515547_37);
-Obj v__3514745_37 = v__3515548_37;
-Obj v__3515549_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515550_37 = PRIM_CDR(v__3515549_37);
-Obj v__3515551_37 = PRIM_EQ(Nil, v__3515550_37);
-if (True == v__3515551_37) {
-Obj v__3515552_37 = makeCons(co->gc, v__3514745_37, Nil);
-Obj v__3515553_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515552_37);
-coraReturn(co, v__3515553_37);
+Obj v__3514813_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515635_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3515635_37) {
+Obj v__3515636_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3515637_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515636_37);
+if (True == v__3515637_37) {
+Obj v__3515638_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515639_37 = PRIM_ISCONS(v__3515638_37);
+if (True == v__3515639_37) {
+Obj v__3515640_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515641_37 = PRIM_CAR(v__3515640_37);
+Obj v__3514838_37 = v__3515641_37;
+Obj v__3515642_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515643_37 = PRIM_CDR(v__3515642_37);
+Obj v__3515644_37 = PRIM_EQ(Nil, v__3515643_37);
+if (True == v__3515644_37) {
+Obj v__3515645_37 = makeCons(co->gc, v__3514838_37, Nil);
+Obj v__3515646_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515645_37);
+coraReturn(co, v__3515646_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514720_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514720_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514720_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514720_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 }
@@ -728,73 +728,73 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515381_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3515381_37) {
+Obj v__3515474_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3515474_37) {
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514721_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515520_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515520_37) {
-Obj v__3515521_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515522_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3515521_37);
-if (True == v__3515522_37) {
-Obj v__3515523_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515524_37 = PRIM_ISCONS(v__3515523_37);
-if (True == v__3515524_37) {
-Obj v__3515525_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515526_37 = PRIM_CAR(v__3515525_37);
-Obj v__3514743_37 = v__3515526_37;
-Obj v__3515527_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515528_37 = PRIM_CDR(v__3515527_37);
-Obj v__3515529_37 = PRIM_ISCONS(v__3515528_37);
-if (True == v__3515529_37) {
-Obj v__3515530_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515531_37 = PRIM_CDR(v__3515530_37);
-Obj v__3515532_37 = PRIM_CAR(v__3515531_37);
-Obj v__3514744_37 = v__3515532_37;
-Obj v__3515533_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515534_37 = PRIM_CDR(v__3515533_37);
-Obj v__3515535_37 = PRIM_CDR(v__3515534_37);
-Obj v__3515536_37 = PRIM_EQ(Nil, v__3515535_37);
-if (True == v__3515536_37) {
-R[1] = v__3514744_37;
-R[2] = v__3514743_37;
+Obj v__3514814_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515613_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515613_37) {
+Obj v__3515614_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515615_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3515614_37);
+if (True == v__3515615_37) {
+Obj v__3515616_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515617_37 = PRIM_ISCONS(v__3515616_37);
+if (True == v__3515617_37) {
+Obj v__3515618_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515619_37 = PRIM_CAR(v__3515618_37);
+Obj v__3514836_37 = v__3515619_37;
+Obj v__3515620_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515621_37 = PRIM_CDR(v__3515620_37);
+Obj v__3515622_37 = PRIM_ISCONS(v__3515621_37);
+if (True == v__3515622_37) {
+Obj v__3515623_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515624_37 = PRIM_CDR(v__3515623_37);
+Obj v__3515625_37 = PRIM_CAR(v__3515624_37);
+Obj v__3514837_37 = v__3515625_37;
+Obj v__3515626_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515627_37 = PRIM_CDR(v__3515626_37);
+Obj v__3515628_37 = PRIM_CDR(v__3515627_37);
+Obj v__3515629_37 = PRIM_EQ(Nil, v__3515628_37);
+if (True == v__3515629_37) {
+R[1] = v__3514837_37;
+R[2] = v__3514836_37;
 saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514743_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514836_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514721_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514721_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514721_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514721_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514721_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515383_37= co->res;
-if (True == v__3515383_37) {
+Obj v__3515476_37= co->res;
+if (True == v__3515476_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -805,8 +805,8 @@ return;
 }
 case 2:
 {
-Obj v__3515382_37= co->res;
-if (True == v__3515382_37) {
+Obj v__3515475_37= co->res;
+if (True == v__3515475_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -817,22 +817,22 @@ return;
 }
 case 3:
 {
-Obj v__3515538_37= co->res;
-Obj v__3514743_37 = R[1];
-Obj v__3515539_37 = makeCons(co->gc, v__3515538_37, Nil);
-Obj v__3515540_37 = makeCons(co->gc, v__3514743_37, v__3515539_37);
-Obj v__3515541_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515540_37);
-coraReturn(co, v__3515541_37);
+Obj v__3515631_37= co->res;
+Obj v__3514836_37 = R[1];
+Obj v__3515632_37 = makeCons(co->gc, v__3515631_37, Nil);
+Obj v__3515633_37 = makeCons(co->gc, v__3514836_37, v__3515632_37);
+Obj v__3515634_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515633_37);
+coraReturn(co, v__3515634_37);
 return;
 }
 case 4:
 {
-Obj v__3515537_37= co->res;
-Obj v__3514744_37 = R[1];
-Obj v__3514743_37 = R[2];
-R[1] = v__3514743_37;
+Obj v__3515630_37= co->res;
+Obj v__3514837_37 = R[1];
+Obj v__3514836_37 = R[2];
+R[1] = v__3514836_37;
 saveCont(co, clofun97, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515537_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514744_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515630_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514837_37);
 return;
 }
 }
@@ -842,132 +842,132 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514722_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515476_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515476_37) {
-Obj v__3515477_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515478_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515477_37);
-if (True == v__3515478_37) {
-Obj v__3515479_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515480_37 = PRIM_ISCONS(v__3515479_37);
-if (True == v__3515480_37) {
-Obj v__3515481_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515482_37 = PRIM_CAR(v__3515481_37);
-Obj v__3515483_37 = PRIM_ISCONS(v__3515482_37);
-if (True == v__3515483_37) {
-Obj v__3515484_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515485_37 = PRIM_CAR(v__3515484_37);
-Obj v__3515486_37 = PRIM_CAR(v__3515485_37);
-Obj v__3515487_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515486_37);
-if (True == v__3515487_37) {
-Obj v__3515488_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515489_37 = PRIM_CAR(v__3515488_37);
-Obj v__3515490_37 = PRIM_CDR(v__3515489_37);
-Obj v__3515491_37 = PRIM_ISCONS(v__3515490_37);
-if (True == v__3515491_37) {
-Obj v__3515492_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515493_37 = PRIM_CAR(v__3515492_37);
-Obj v__3515494_37 = PRIM_CDR(v__3515493_37);
-Obj v__3515495_37 = PRIM_CAR(v__3515494_37);
-Obj v__3514741_37 = v__3515495_37;
-Obj v__3515496_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515497_37 = PRIM_CAR(v__3515496_37);
-Obj v__3515498_37 = PRIM_CDR(v__3515497_37);
-Obj v__3515499_37 = PRIM_CDR(v__3515498_37);
-Obj v__3515500_37 = PRIM_EQ(Nil, v__3515499_37);
-if (True == v__3515500_37) {
-Obj v__3515501_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515502_37 = PRIM_CDR(v__3515501_37);
-Obj v__3515503_37 = PRIM_ISCONS(v__3515502_37);
-if (True == v__3515503_37) {
-Obj v__3515504_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515505_37 = PRIM_CDR(v__3515504_37);
-Obj v__3515506_37 = PRIM_CAR(v__3515505_37);
-Obj v__3514742_37 = v__3515506_37;
-Obj v__3515507_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515508_37 = PRIM_CDR(v__3515507_37);
-Obj v__3515509_37 = PRIM_CDR(v__3515508_37);
-Obj v__3515510_37 = PRIM_EQ(Nil, v__3515509_37);
-if (True == v__3515510_37) {
-Obj v__3515511_37 = primIsString(v__3514741_37);
-if (True == v__3515511_37) {
-Obj v__3515512_37 = makeCons(co->gc, v__3514741_37, Nil);
-Obj v__3515513_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515512_37);
-R[1] = v__3514741_37;
-R[2] = v__3514742_37;
+Obj v__3514815_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515569_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515569_37) {
+Obj v__3515570_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515571_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515570_37);
+if (True == v__3515571_37) {
+Obj v__3515572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515573_37 = PRIM_ISCONS(v__3515572_37);
+if (True == v__3515573_37) {
+Obj v__3515574_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515575_37 = PRIM_CAR(v__3515574_37);
+Obj v__3515576_37 = PRIM_ISCONS(v__3515575_37);
+if (True == v__3515576_37) {
+Obj v__3515577_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515578_37 = PRIM_CAR(v__3515577_37);
+Obj v__3515579_37 = PRIM_CAR(v__3515578_37);
+Obj v__3515580_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515579_37);
+if (True == v__3515580_37) {
+Obj v__3515581_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515582_37 = PRIM_CAR(v__3515581_37);
+Obj v__3515583_37 = PRIM_CDR(v__3515582_37);
+Obj v__3515584_37 = PRIM_ISCONS(v__3515583_37);
+if (True == v__3515584_37) {
+Obj v__3515585_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515586_37 = PRIM_CAR(v__3515585_37);
+Obj v__3515587_37 = PRIM_CDR(v__3515586_37);
+Obj v__3515588_37 = PRIM_CAR(v__3515587_37);
+Obj v__3514834_37 = v__3515588_37;
+Obj v__3515589_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515590_37 = PRIM_CAR(v__3515589_37);
+Obj v__3515591_37 = PRIM_CDR(v__3515590_37);
+Obj v__3515592_37 = PRIM_CDR(v__3515591_37);
+Obj v__3515593_37 = PRIM_EQ(Nil, v__3515592_37);
+if (True == v__3515593_37) {
+Obj v__3515594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515595_37 = PRIM_CDR(v__3515594_37);
+Obj v__3515596_37 = PRIM_ISCONS(v__3515595_37);
+if (True == v__3515596_37) {
+Obj v__3515597_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515598_37 = PRIM_CDR(v__3515597_37);
+Obj v__3515599_37 = PRIM_CAR(v__3515598_37);
+Obj v__3514835_37 = v__3515599_37;
+Obj v__3515600_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515601_37 = PRIM_CDR(v__3515600_37);
+Obj v__3515602_37 = PRIM_CDR(v__3515601_37);
+Obj v__3515603_37 = PRIM_EQ(Nil, v__3515602_37);
+if (True == v__3515603_37) {
+Obj v__3515604_37 = primIsString(v__3514834_37);
+if (True == v__3515604_37) {
+Obj v__3515605_37 = makeCons(co->gc, v__3514834_37, Nil);
+Obj v__3515606_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515605_37);
+R[1] = v__3514834_37;
+R[2] = v__3514835_37;
 saveCont(co, clofun96, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515513_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515606_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514722_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515516_37= co->res;
-Obj v__3515514_37 = R[1];
-Obj v__3515517_37 = makeCons(co->gc, v__3515516_37, Nil);
-Obj v__3515518_37 = makeCons(co->gc, v__3515514_37, v__3515517_37);
-Obj v__3515519_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515518_37);
-coraReturn(co, v__3515519_37);
+Obj v__3515609_37= co->res;
+Obj v__3515607_37 = R[1];
+Obj v__3515610_37 = makeCons(co->gc, v__3515609_37, Nil);
+Obj v__3515611_37 = makeCons(co->gc, v__3515607_37, v__3515610_37);
+Obj v__3515612_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515611_37);
+coraReturn(co, v__3515612_37);
 return;
 }
 case 2:
 {
-Obj v__3515514_37= co->res;
-Obj v__3514741_37 = R[1];
-Obj v__3514742_37 = R[2];
-Obj v__3515515_37 = makeCons(co->gc, v__3514741_37, closureRef(R[0], 3));
-R[1] = v__3515514_37;
+Obj v__3515607_37= co->res;
+Obj v__3514834_37 = R[1];
+Obj v__3514835_37 = R[2];
+Obj v__3515608_37 = makeCons(co->gc, v__3514834_37, closureRef(R[0], 3));
+R[1] = v__3515607_37;
 saveCont(co, clofun96, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515515_37, v__3514742_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515608_37, v__3514835_37);
 return;
 }
 }
@@ -977,34 +977,34 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514723_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515468_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515468_37) {
-Obj v__3515469_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514736_37 = v__3515469_37;
-Obj v__3515470_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514737_37 = v__3515470_37;
-Obj v__3514740_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3514736_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514737_37, v__3514723_37);
-Obj v__3515474_37 = PRIM_EQ(v__3514736_37, getBinding(co, packageID, 127).name);
-if (True == v__3515474_37) {
+Obj v__3514816_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515561_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515561_37) {
+Obj v__3515562_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514829_37 = v__3515562_37;
+Obj v__3515563_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514830_37 = v__3515563_37;
+Obj v__3514833_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3514829_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514830_37, v__3514816_37);
+Obj v__3515567_37 = PRIM_EQ(v__3514829_37, getBinding(co, packageID, 127).name);
+if (True == v__3515567_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514740_37, True);
+coraCall1(co, v__3514833_37, True);
 return;
 } else {
-Obj v__3515475_37 = PRIM_EQ(v__3514736_37, getBinding(co, packageID, 90).name);
-if (True == v__3515475_37) {
+Obj v__3515568_37 = PRIM_EQ(v__3514829_37, getBinding(co, packageID, 90).name);
+if (True == v__3515568_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514740_37, True);
+coraCall1(co, v__3514833_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514740_37, False);
+coraCall1(co, v__3514833_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514723_37);
+coraCall0(co, v__3514816_37);
 return;
 }
 }
@@ -1015,8 +1015,8 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514739_37 = R[1];
-if (True == v__3514739_37) {
+Obj v__3514832_37 = R[1];
+if (True == v__3514832_37) {
 saveCont(co, clofun94, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1028,16 +1028,16 @@ return;
 }
 case 1:
 {
-Obj v__3515472_37= co->res;
-Obj v__3515473_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515472_37);
-coraReturn(co, v__3515473_37);
+Obj v__3515565_37= co->res;
+Obj v__3515566_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515565_37);
+coraReturn(co, v__3515566_37);
 return;
 }
 case 2:
 {
-Obj v__3515471_37= co->res;
+Obj v__3515564_37= co->res;
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515471_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515564_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1047,100 +1047,100 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514724_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515435_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515435_37) {
-Obj v__3515436_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515437_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3515436_37);
-if (True == v__3515437_37) {
-Obj v__3515438_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515439_37 = PRIM_ISCONS(v__3515438_37);
-if (True == v__3515439_37) {
-Obj v__3515440_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515441_37 = PRIM_CAR(v__3515440_37);
-Obj v__3514733_37 = v__3515441_37;
-Obj v__3515442_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515443_37 = PRIM_CDR(v__3515442_37);
-Obj v__3515444_37 = PRIM_ISCONS(v__3515443_37);
-if (True == v__3515444_37) {
-Obj v__3515445_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515446_37 = PRIM_CDR(v__3515445_37);
-Obj v__3515447_37 = PRIM_CAR(v__3515446_37);
-Obj v__3514734_37 = v__3515447_37;
-Obj v__3515448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515449_37 = PRIM_CDR(v__3515448_37);
-Obj v__3515450_37 = PRIM_CDR(v__3515449_37);
-Obj v__3515451_37 = PRIM_ISCONS(v__3515450_37);
-if (True == v__3515451_37) {
-Obj v__3515452_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515453_37 = PRIM_CDR(v__3515452_37);
-Obj v__3515454_37 = PRIM_CDR(v__3515453_37);
-Obj v__3515455_37 = PRIM_CAR(v__3515454_37);
-Obj v__3514735_37 = v__3515455_37;
-Obj v__3515456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515457_37 = PRIM_CDR(v__3515456_37);
-Obj v__3515458_37 = PRIM_CDR(v__3515457_37);
-Obj v__3515459_37 = PRIM_CDR(v__3515458_37);
-Obj v__3515460_37 = PRIM_EQ(Nil, v__3515459_37);
-if (True == v__3515460_37) {
-R[1] = v__3514735_37;
-R[2] = v__3514733_37;
+Obj v__3514817_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515528_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515528_37) {
+Obj v__3515529_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515530_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3515529_37);
+if (True == v__3515530_37) {
+Obj v__3515531_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515532_37 = PRIM_ISCONS(v__3515531_37);
+if (True == v__3515532_37) {
+Obj v__3515533_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515534_37 = PRIM_CAR(v__3515533_37);
+Obj v__3514826_37 = v__3515534_37;
+Obj v__3515535_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515536_37 = PRIM_CDR(v__3515535_37);
+Obj v__3515537_37 = PRIM_ISCONS(v__3515536_37);
+if (True == v__3515537_37) {
+Obj v__3515538_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515539_37 = PRIM_CDR(v__3515538_37);
+Obj v__3515540_37 = PRIM_CAR(v__3515539_37);
+Obj v__3514827_37 = v__3515540_37;
+Obj v__3515541_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515542_37 = PRIM_CDR(v__3515541_37);
+Obj v__3515543_37 = PRIM_CDR(v__3515542_37);
+Obj v__3515544_37 = PRIM_ISCONS(v__3515543_37);
+if (True == v__3515544_37) {
+Obj v__3515545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515546_37 = PRIM_CDR(v__3515545_37);
+Obj v__3515547_37 = PRIM_CDR(v__3515546_37);
+Obj v__3515548_37 = PRIM_CAR(v__3515547_37);
+Obj v__3514828_37 = v__3515548_37;
+Obj v__3515549_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515550_37 = PRIM_CDR(v__3515549_37);
+Obj v__3515551_37 = PRIM_CDR(v__3515550_37);
+Obj v__3515552_37 = PRIM_CDR(v__3515551_37);
+Obj v__3515553_37 = PRIM_EQ(Nil, v__3515552_37);
+if (True == v__3515553_37) {
+R[1] = v__3514828_37;
+R[2] = v__3514826_37;
 saveCont(co, clofun93, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514734_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514827_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514724_37);
+coraCall0(co, v__3514817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514724_37);
+coraCall0(co, v__3514817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514724_37);
+coraCall0(co, v__3514817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514724_37);
+coraCall0(co, v__3514817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514724_37);
+coraCall0(co, v__3514817_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514724_37);
+coraCall0(co, v__3514817_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515463_37= co->res;
-Obj v__3515461_37 = R[1];
-Obj v__3514733_37 = R[2];
-Obj v__3515464_37 = makeCons(co->gc, v__3515463_37, Nil);
-Obj v__3515465_37 = makeCons(co->gc, v__3515461_37, v__3515464_37);
-Obj v__3515466_37 = makeCons(co->gc, v__3514733_37, v__3515465_37);
-Obj v__3515467_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515466_37);
-coraReturn(co, v__3515467_37);
+Obj v__3515556_37= co->res;
+Obj v__3515554_37 = R[1];
+Obj v__3514826_37 = R[2];
+Obj v__3515557_37 = makeCons(co->gc, v__3515556_37, Nil);
+Obj v__3515558_37 = makeCons(co->gc, v__3515554_37, v__3515557_37);
+Obj v__3515559_37 = makeCons(co->gc, v__3514826_37, v__3515558_37);
+Obj v__3515560_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515559_37);
+coraReturn(co, v__3515560_37);
 return;
 }
 case 2:
 {
-Obj v__3515461_37= co->res;
-Obj v__3514735_37 = R[1];
-Obj v__3514733_37 = R[2];
-Obj v__3515462_37 = makeCons(co->gc, v__3514733_37, closureRef(R[0], 1));
-R[1] = v__3515461_37;
-R[2] = v__3514733_37;
+Obj v__3515554_37= co->res;
+Obj v__3514828_37 = R[1];
+Obj v__3514826_37 = R[2];
+Obj v__3515555_37 = makeCons(co->gc, v__3514826_37, closureRef(R[0], 1));
+R[1] = v__3515554_37;
+R[2] = v__3514826_37;
 saveCont(co, clofun93, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515462_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514735_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515555_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514828_37);
 return;
 }
 }
@@ -1150,73 +1150,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514725_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515409_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3515409_37) {
-Obj v__3515410_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3515411_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515410_37);
-if (True == v__3515411_37) {
-Obj v__3515412_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515413_37 = PRIM_ISCONS(v__3515412_37);
-if (True == v__3515413_37) {
-Obj v__3515414_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515415_37 = PRIM_CAR(v__3515414_37);
-Obj v__3514730_37 = v__3515415_37;
-Obj v__3515416_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515417_37 = PRIM_CDR(v__3515416_37);
-Obj v__3515418_37 = PRIM_ISCONS(v__3515417_37);
-if (True == v__3515418_37) {
-Obj v__3515419_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515420_37 = PRIM_CDR(v__3515419_37);
-Obj v__3515421_37 = PRIM_CAR(v__3515420_37);
-Obj v__3514731_37 = v__3515421_37;
-Obj v__3515422_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515423_37 = PRIM_CDR(v__3515422_37);
-Obj v__3515424_37 = PRIM_CDR(v__3515423_37);
-Obj v__3515425_37 = PRIM_ISCONS(v__3515424_37);
-if (True == v__3515425_37) {
-Obj v__3515426_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515427_37 = PRIM_CDR(v__3515426_37);
-Obj v__3515428_37 = PRIM_CDR(v__3515427_37);
-Obj v__3515429_37 = PRIM_CAR(v__3515428_37);
-Obj v__3514732_37 = v__3515429_37;
-Obj v__3515430_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515431_37 = PRIM_CDR(v__3515430_37);
-Obj v__3515432_37 = PRIM_CDR(v__3515431_37);
-Obj v__3515433_37 = PRIM_CDR(v__3515432_37);
-Obj v__3515434_37 = PRIM_EQ(Nil, v__3515433_37);
-if (True == v__3515434_37) {
+Obj v__3514818_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515502_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3515502_37) {
+Obj v__3515503_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3515504_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515503_37);
+if (True == v__3515504_37) {
+Obj v__3515505_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515506_37 = PRIM_ISCONS(v__3515505_37);
+if (True == v__3515506_37) {
+Obj v__3515507_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515508_37 = PRIM_CAR(v__3515507_37);
+Obj v__3514823_37 = v__3515508_37;
+Obj v__3515509_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515510_37 = PRIM_CDR(v__3515509_37);
+Obj v__3515511_37 = PRIM_ISCONS(v__3515510_37);
+if (True == v__3515511_37) {
+Obj v__3515512_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515513_37 = PRIM_CDR(v__3515512_37);
+Obj v__3515514_37 = PRIM_CAR(v__3515513_37);
+Obj v__3514824_37 = v__3515514_37;
+Obj v__3515515_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515516_37 = PRIM_CDR(v__3515515_37);
+Obj v__3515517_37 = PRIM_CDR(v__3515516_37);
+Obj v__3515518_37 = PRIM_ISCONS(v__3515517_37);
+if (True == v__3515518_37) {
+Obj v__3515519_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515520_37 = PRIM_CDR(v__3515519_37);
+Obj v__3515521_37 = PRIM_CDR(v__3515520_37);
+Obj v__3515522_37 = PRIM_CAR(v__3515521_37);
+Obj v__3514825_37 = v__3515522_37;
+Obj v__3515523_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515524_37 = PRIM_CDR(v__3515523_37);
+Obj v__3515525_37 = PRIM_CDR(v__3515524_37);
+Obj v__3515526_37 = PRIM_CDR(v__3515525_37);
+Obj v__3515527_37 = PRIM_EQ(Nil, v__3515526_37);
+if (True == v__3515527_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514730_37, v__3514731_37, v__3514732_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514823_37, v__3514824_37, v__3514825_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514725_37);
+coraCall0(co, v__3514818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514725_37);
+coraCall0(co, v__3514818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514725_37);
+coraCall0(co, v__3514818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514725_37);
+coraCall0(co, v__3514818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514725_37);
+coraCall0(co, v__3514818_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514725_37);
+coraCall0(co, v__3514818_37);
 return;
 }
 }
@@ -1227,81 +1227,81 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514726_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3515385_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515385_37) {
-Obj v__3515386_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515387_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3515386_37);
-if (True == v__3515387_37) {
-Obj v__3515388_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515389_37 = PRIM_ISCONS(v__3515388_37);
-if (True == v__3515389_37) {
-Obj v__3515390_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515391_37 = PRIM_CAR(v__3515390_37);
-Obj v__3514727_37 = v__3515391_37;
-Obj v__3515392_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515393_37 = PRIM_CDR(v__3515392_37);
-Obj v__3515394_37 = PRIM_ISCONS(v__3515393_37);
-if (True == v__3515394_37) {
-Obj v__3515395_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515396_37 = PRIM_CDR(v__3515395_37);
-Obj v__3515397_37 = PRIM_CAR(v__3515396_37);
-Obj v__3514728_37 = v__3515397_37;
-Obj v__3515398_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515399_37 = PRIM_CDR(v__3515398_37);
-Obj v__3515400_37 = PRIM_CDR(v__3515399_37);
-Obj v__3515401_37 = PRIM_EQ(Nil, v__3515400_37);
-if (True == v__3515401_37) {
-R[1] = v__3514728_37;
+Obj v__3514819_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3515478_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515478_37) {
+Obj v__3515479_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515480_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3515479_37);
+if (True == v__3515480_37) {
+Obj v__3515481_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515482_37 = PRIM_ISCONS(v__3515481_37);
+if (True == v__3515482_37) {
+Obj v__3515483_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515484_37 = PRIM_CAR(v__3515483_37);
+Obj v__3514820_37 = v__3515484_37;
+Obj v__3515485_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515486_37 = PRIM_CDR(v__3515485_37);
+Obj v__3515487_37 = PRIM_ISCONS(v__3515486_37);
+if (True == v__3515487_37) {
+Obj v__3515488_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515489_37 = PRIM_CDR(v__3515488_37);
+Obj v__3515490_37 = PRIM_CAR(v__3515489_37);
+Obj v__3514821_37 = v__3515490_37;
+Obj v__3515491_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515492_37 = PRIM_CDR(v__3515491_37);
+Obj v__3515493_37 = PRIM_CDR(v__3515492_37);
+Obj v__3515494_37 = PRIM_EQ(Nil, v__3515493_37);
+if (True == v__3515494_37) {
+R[1] = v__3514821_37;
 saveCont(co, clofun91, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514727_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514820_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514726_37);
+coraCall0(co, v__3514819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514726_37);
+coraCall0(co, v__3514819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514726_37);
+coraCall0(co, v__3514819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514726_37);
+coraCall0(co, v__3514819_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514726_37);
+coraCall0(co, v__3514819_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515405_37= co->res;
-Obj v__3515404_37 = R[1];
-Obj v__3515406_37 = makeCons(co->gc, v__3515405_37, Nil);
-Obj v__3515407_37 = makeCons(co->gc, v__3515404_37, v__3515406_37);
-Obj v__3515408_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515407_37);
-coraReturn(co, v__3515408_37);
+Obj v__3515498_37= co->res;
+Obj v__3515497_37 = R[1];
+Obj v__3515499_37 = makeCons(co->gc, v__3515498_37, Nil);
+Obj v__3515500_37 = makeCons(co->gc, v__3515497_37, v__3515499_37);
+Obj v__3515501_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515500_37);
+coraReturn(co, v__3515501_37);
 return;
 }
 case 2:
 {
-Obj v__3515402_37= co->res;
-Obj v__3514728_37 = R[1];
-Obj v__3514729_37 = v__3515402_37;
-Obj v__3515403_37 = makeCons(co->gc, v__3514729_37, Nil);
-Obj v__3515404_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515403_37);
-R[1] = v__3515404_37;
+Obj v__3515495_37= co->res;
+Obj v__3514821_37 = R[1];
+Obj v__3514822_37 = v__3515495_37;
+Obj v__3515496_37 = makeCons(co->gc, v__3514822_37, Nil);
+Obj v__3515497_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515496_37);
+R[1] = v__3515497_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514728_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514821_37);
 return;
 }
 }
@@ -1317,9 +1317,9 @@ return;
 }
 case 1:
 {
-Obj v__3515384_37= co->res;
+Obj v__3515477_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515384_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515477_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,23 +1329,23 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514570_37 = R[1];
+Obj v__3514663_37 = R[1];
 saveCont(co, clofun89, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514570_37, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514663_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v__3515378_37= co->res;
-Obj v__3515379_37 = primNot(v__3515378_37);
-coraReturn(co, v__3515379_37);
+Obj v__3515471_37= co->res;
+Obj v__3515472_37 = primNot(v__3515471_37);
+coraReturn(co, v__3515472_37);
 return;
 }
 case 2:
 {
-Obj v__3515377_37= co->res;
+Obj v__3515470_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515377_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515470_37);
 return;
 }
 }
@@ -1355,44 +1355,44 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514560_37 = R[1];
-Obj v__3514561_37 = R[2];
-Obj v__3515362_37 = PRIM_EQ(Nil, v__3514561_37);
-if (True == v__3515362_37) {
+Obj v__3514653_37 = R[1];
+Obj v__3514654_37 = R[2];
+Obj v__3515455_37 = PRIM_EQ(Nil, v__3514654_37);
+if (True == v__3515455_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3514713_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3514561_37, v__3514560_37);
-Obj v__3515366_37 = PRIM_ISCONS(v__3514561_37);
-if (True == v__3515366_37) {
-Obj v__3515367_37 = PRIM_CAR(v__3514561_37);
-Obj v__3515368_37 = PRIM_ISCONS(v__3515367_37);
-if (True == v__3515368_37) {
-Obj v__3515369_37 = PRIM_CAR(v__3514561_37);
-Obj v__3515370_37 = PRIM_CAR(v__3515369_37);
-Obj v__3514715_37 = v__3515370_37;
-Obj v__3515371_37 = PRIM_CAR(v__3514561_37);
-Obj v__3515372_37 = PRIM_CDR(v__3515371_37);
-Obj v__3514716_37 = v__3515372_37;
-Obj v__3515373_37 = PRIM_CDR(v__3514561_37);
-Obj v__3515374_37 = PRIM_EQ(v__3514560_37, v__3514715_37);
-if (True == v__3515374_37) {
-Obj v__3515375_37 = makeCons(co->gc, v__3514715_37, v__3514716_37);
-coraReturn(co, v__3515375_37);
+Obj v__3514806_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3514654_37, v__3514653_37);
+Obj v__3515459_37 = PRIM_ISCONS(v__3514654_37);
+if (True == v__3515459_37) {
+Obj v__3515460_37 = PRIM_CAR(v__3514654_37);
+Obj v__3515461_37 = PRIM_ISCONS(v__3515460_37);
+if (True == v__3515461_37) {
+Obj v__3515462_37 = PRIM_CAR(v__3514654_37);
+Obj v__3515463_37 = PRIM_CAR(v__3515462_37);
+Obj v__3514808_37 = v__3515463_37;
+Obj v__3515464_37 = PRIM_CAR(v__3514654_37);
+Obj v__3515465_37 = PRIM_CDR(v__3515464_37);
+Obj v__3514809_37 = v__3515465_37;
+Obj v__3515466_37 = PRIM_CDR(v__3514654_37);
+Obj v__3515467_37 = PRIM_EQ(v__3514653_37, v__3514808_37);
+if (True == v__3515467_37) {
+Obj v__3515468_37 = makeCons(co->gc, v__3514808_37, v__3514809_37);
+coraReturn(co, v__3515468_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514713_37);
+coraCall0(co, v__3514806_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514713_37);
+coraCall0(co, v__3514806_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514713_37);
+coraCall0(co, v__3514806_37);
 return;
 }
 }
@@ -1404,13 +1404,13 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515363_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515363_37) {
-Obj v__3515364_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515365_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514714_37 = v__3515365_37;
+Obj v__3515456_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515456_37) {
+Obj v__3515457_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514807_37 = v__3515458_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514714_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514807_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1425,27 +1425,27 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514551_37 = R[1];
-Obj v__3514552_37 = R[2];
-Obj v__3514553_37 = R[3];
-Obj v__3515281_37 = PRIM_EQ(Nil, v__3514553_37);
-if (True == v__3515281_37) {
+Obj v__3514644_37 = R[1];
+Obj v__3514645_37 = R[2];
+Obj v__3514646_37 = R[3];
+Obj v__3515374_37 = PRIM_EQ(Nil, v__3514646_37);
+if (True == v__3515374_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514551_37, v__3514552_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514644_37, v__3514645_37);
 return;
 } else {
-Obj v__3515282_37 = PRIM_ISCONS(v__3514553_37);
-if (True == v__3515282_37) {
-Obj v__3515283_37 = PRIM_CAR(v__3514553_37);
-Obj v__3514710_37 = v__3515283_37;
-Obj v__3515284_37 = PRIM_CDR(v__3514553_37);
-Obj v__3514711_37 = v__3515284_37;
-R[1] = v__3514710_37;
-R[2] = v__3514551_37;
-R[3] = v__3514552_37;
-R[4] = v__3514711_37;
+Obj v__3515375_37 = PRIM_ISCONS(v__3514646_37);
+if (True == v__3515375_37) {
+Obj v__3515376_37 = PRIM_CAR(v__3514646_37);
+Obj v__3514803_37 = v__3515376_37;
+Obj v__3515377_37 = PRIM_CDR(v__3514646_37);
+Obj v__3514804_37 = v__3515377_37;
+R[1] = v__3514803_37;
+R[2] = v__3514644_37;
+R[3] = v__3514645_37;
+R[4] = v__3514804_37;
 saveCont(co, clofun86, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514710_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514803_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1456,90 +1456,90 @@ return;
 }
 case 1:
 {
-Obj v__3515291_37= co->res;
+Obj v__3515384_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515291_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515384_37);
 return;
 }
 case 2:
 {
-Obj v__3515290_37= co->res;
-Obj v__3514710_37 = R[1];
+Obj v__3515383_37= co->res;
+Obj v__3514803_37 = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514710_37, v__3515290_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514803_37, v__3515383_37);
 return;
 }
 case 3:
 {
-Obj v__3515289_37= co->res;
-Obj v__3514710_37 = R[1];
-R[1] = v__3514710_37;
+Obj v__3515382_37= co->res;
+Obj v__3514803_37 = R[1];
+R[1] = v__3514803_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515289_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515382_37);
 return;
 }
 case 4:
 {
-Obj v__3515288_37= co->res;
-Obj v__3514710_37 = R[1];
-Obj v__3514551_37 = R[2];
-Obj v__3514552_37 = R[3];
-Obj v__3514711_37 = R[4];
-if (True == v__3515288_37) {
-R[1] = v__3514710_37;
+Obj v__3515381_37= co->res;
+Obj v__3514803_37 = R[1];
+Obj v__3514644_37 = R[2];
+Obj v__3514645_37 = R[3];
+Obj v__3514804_37 = R[4];
+if (True == v__3515381_37) {
+R[1] = v__3514803_37;
 saveCont(co, clofun86, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514551_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514644_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514551_37, v__3514552_37, v__3514711_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514644_37, v__3514645_37, v__3514804_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3515287_37= co->res;
-Obj v__3514710_37 = R[1];
-Obj v__3514551_37 = R[2];
-Obj v__3514552_37 = R[3];
-Obj v__3514711_37 = R[4];
-Obj v__3514712_37 = v__3515287_37;
-R[1] = v__3514710_37;
-R[2] = v__3514551_37;
-R[3] = v__3514552_37;
-R[4] = v__3514711_37;
+Obj v__3515380_37= co->res;
+Obj v__3514803_37 = R[1];
+Obj v__3514644_37 = R[2];
+Obj v__3514645_37 = R[3];
+Obj v__3514804_37 = R[4];
+Obj v__3514805_37 = v__3515380_37;
+R[1] = v__3514803_37;
+R[2] = v__3514644_37;
+R[3] = v__3514645_37;
+R[4] = v__3514804_37;
 saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514551_37, v__3514712_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514644_37, v__3514805_37);
 return;
 }
 case 6:
 {
-Obj v__3515286_37= co->res;
-Obj v__3514710_37 = R[1];
-Obj v__3514551_37 = R[2];
-Obj v__3514552_37 = R[3];
-Obj v__3514711_37 = R[4];
-R[1] = v__3514710_37;
-R[2] = v__3514551_37;
-R[3] = v__3514552_37;
-R[4] = v__3514711_37;
+Obj v__3515379_37= co->res;
+Obj v__3514803_37 = R[1];
+Obj v__3514644_37 = R[2];
+Obj v__3514645_37 = R[3];
+Obj v__3514804_37 = R[4];
+R[1] = v__3514803_37;
+R[2] = v__3514644_37;
+R[3] = v__3514645_37;
+R[4] = v__3514804_37;
 saveCont(co, clofun86, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515286_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515379_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3515285_37= co->res;
-Obj v__3514710_37 = R[1];
-Obj v__3514551_37 = R[2];
-Obj v__3514552_37 = R[3];
-Obj v__3514711_37 = R[4];
-R[1] = v__3514710_37;
-R[2] = v__3514551_37;
-R[3] = v__3514552_37;
-R[4] = v__3514711_37;
+Obj v__3515378_37= co->res;
+Obj v__3514803_37 = R[1];
+Obj v__3514644_37 = R[2];
+Obj v__3514645_37 = R[3];
+Obj v__3514804_37 = R[4];
+R[1] = v__3514803_37;
+R[2] = v__3514644_37;
+R[3] = v__3514645_37;
+R[4] = v__3514804_37;
 saveCont(co, clofun86, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515285_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515378_37);
 return;
 }
 }
@@ -1549,56 +1549,56 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514549_37 = R[1];
-Obj v__3514550_37 = R[2];
-Obj v__3515275_37 = PRIM_EQ(v__3514550_37, makeCString(co->gc, ""));
-if (True == v__3515275_37) {
-coraReturn(co, v__3514549_37);
+Obj v__3514642_37 = R[1];
+Obj v__3514643_37 = R[2];
+Obj v__3515368_37 = PRIM_EQ(v__3514643_37, makeCString(co->gc, ""));
+if (True == v__3515368_37) {
+coraReturn(co, v__3514642_37);
 return;
 } else {
-R[1] = v__3514549_37;
-R[2] = v__3514550_37;
+R[1] = v__3514642_37;
+R[2] = v__3514643_37;
 saveCont(co, clofun85, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514549_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514642_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515279_37= co->res;
+Obj v__3515372_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515279_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515372_37);
 return;
 }
 case 2:
 {
-Obj v__3515278_37= co->res;
-Obj v__3514550_37 = R[1];
+Obj v__3515371_37= co->res;
+Obj v__3514643_37 = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514550_37, v__3515278_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514643_37, v__3515371_37);
 return;
 }
 case 3:
 {
-Obj v__3515277_37= co->res;
-Obj v__3514550_37 = R[1];
-R[1] = v__3514550_37;
+Obj v__3515370_37= co->res;
+Obj v__3514643_37 = R[1];
+R[1] = v__3514643_37;
 saveCont(co, clofun85, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515277_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515370_37);
 return;
 }
 case 4:
 {
-Obj v__3515276_37= co->res;
-Obj v__3514549_37 = R[1];
-Obj v__3514550_37 = R[2];
-if (True == v__3515276_37) {
-coraReturn(co, v__3514549_37);
+Obj v__3515369_37= co->res;
+Obj v__3514642_37 = R[1];
+Obj v__3514643_37 = R[2];
+if (True == v__3515369_37) {
+coraReturn(co, v__3514642_37);
 return;
 } else {
-R[1] = v__3514550_37;
+R[1] = v__3514643_37;
 saveCont(co, clofun85, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514549_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514642_37);
 return;
 }
 }
@@ -1609,37 +1609,37 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514543_37 = R[1];
-R[1] = v__3514543_37;
+Obj v__3514636_37 = R[1];
+R[1] = v__3514636_37;
 saveCont(co, clofun84, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514543_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514636_37);
 return;
 }
 case 1:
 {
-Obj v__3515257_37= co->res;
-Obj v__3514709_37 = R[1];
+Obj v__3515350_37= co->res;
+Obj v__3514802_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3515257_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3514709_37));
+coraCall1(co, v__3515350_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3514802_37));
 return;
 }
 case 2:
 {
-Obj v__3515256_37= co->res;
-Obj v__3514709_37 = R[1];
-R[1] = v__3514709_37;
+Obj v__3515349_37= co->res;
+Obj v__3514802_37 = R[1];
+R[1] = v__3514802_37;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515256_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515349_37);
 return;
 }
 case 3:
 {
-Obj v__3515255_37= co->res;
-Obj v__3514543_37 = R[1];
-Obj v__3514709_37 = v__3515255_37;
-R[1] = v__3514709_37;
+Obj v__3515348_37= co->res;
+Obj v__3514636_37 = R[1];
+Obj v__3514802_37 = v__3515348_37;
+R[1] = v__3514802_37;
 saveCont(co, clofun84, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514543_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514636_37);
 return;
 }
 }
@@ -1649,44 +1649,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514545_37 = R[1];
-Obj v__3514546_37 = R[2];
-Obj v__3514547_37 = R[3];
-Obj v__3515258_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514545_37);
-R[1] = v__3514546_37;
-R[2] = v__3514547_37;
-R[3] = v__3515258_37;
+Obj v__3514638_37 = R[1];
+Obj v__3514639_37 = R[2];
+Obj v__3514640_37 = R[3];
+Obj v__3515351_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514638_37);
+R[1] = v__3514639_37;
+R[2] = v__3514640_37;
+R[3] = v__3515351_37;
 saveCont(co, clofun83, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v__3514545_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v__3514638_37);
 return;
 }
 case 1:
 {
-Obj v__3515268_37= co->res;
-Obj v__3515258_37 = R[1];
-Obj v__3515269_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515268_37);
-Obj v__3515270_37 = makeCons(co->gc, v__3515269_37, Nil);
-Obj v__3515271_37 = makeCons(co->gc, v__3515258_37, v__3515270_37);
-Obj v__3515272_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515271_37);
-Obj v__3515273_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515272_37);
-coraReturn(co, v__3515273_37);
+Obj v__3515361_37= co->res;
+Obj v__3515351_37 = R[1];
+Obj v__3515362_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515361_37);
+Obj v__3515363_37 = makeCons(co->gc, v__3515362_37, Nil);
+Obj v__3515364_37 = makeCons(co->gc, v__3515351_37, v__3515363_37);
+Obj v__3515365_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515364_37);
+Obj v__3515366_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515365_37);
+coraReturn(co, v__3515366_37);
 return;
 }
 case 2:
 {
-Obj v__3515261_37= co->res;
-Obj v__3514546_37 = R[1];
-Obj v__3514547_37 = R[2];
-Obj v__3515258_37 = R[3];
-Obj v__3515262_37 = makeCons(co->gc, v__3514546_37, Nil);
-Obj v__3515263_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515262_37);
-Obj v__3515264_37 = makeCons(co->gc, v__3515263_37, Nil);
-Obj v__3515265_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515264_37);
-Obj v__3515266_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515265_37);
-Obj v__3515267_37 = makeCons(co->gc, v__3515266_37, v__3514547_37);
-R[1] = v__3515258_37;
+Obj v__3515354_37= co->res;
+Obj v__3514639_37 = R[1];
+Obj v__3514640_37 = R[2];
+Obj v__3515351_37 = R[3];
+Obj v__3515355_37 = makeCons(co->gc, v__3514639_37, Nil);
+Obj v__3515356_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515355_37);
+Obj v__3515357_37 = makeCons(co->gc, v__3515356_37, Nil);
+Obj v__3515358_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515357_37);
+Obj v__3515359_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515358_37);
+Obj v__3515360_37 = makeCons(co->gc, v__3515359_37, v__3514640_37);
+R[1] = v__3515351_37;
 saveCont(co, clofun83, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515261_37, v__3515267_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515354_37, v__3515360_37);
 return;
 }
 }
@@ -1696,10 +1696,10 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514548_37 = R[1];
-Obj v__3515259_37 = makeCons(co->gc, v__3514548_37, Nil);
-Obj v__3515260_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515259_37);
-coraReturn(co, v__3515260_37);
+Obj v__3514641_37 = R[1];
+Obj v__3515352_37 = makeCons(co->gc, v__3514641_37, Nil);
+Obj v__3515353_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515352_37);
+coraReturn(co, v__3515353_37);
 return;
 }
 }
@@ -1709,10 +1709,10 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514541_37 = R[1];
-Obj v__3514542_37 = R[2];
+Obj v__3514634_37 = R[1];
+Obj v__3514635_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514541_37, Nil, Nil, v__3514542_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514634_37, Nil, Nil, v__3514635_37);
 return;
 }
 }
@@ -1722,62 +1722,62 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514531_37 = R[1];
-Obj v__3514532_37 = R[2];
-Obj v__3514533_37 = R[3];
-Obj v__3514534_37 = R[4];
-Obj v__3514703_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3514533_37, v__3514531_37, v__3514532_37, v__3514534_37);
-Obj v__3515235_37 = PRIM_ISCONS(v__3514531_37);
-if (True == v__3515235_37) {
-Obj v__3515236_37 = PRIM_CAR(v__3514531_37);
-Obj v__3515237_37 = PRIM_ISCONS(v__3515236_37);
-if (True == v__3515237_37) {
-Obj v__3515238_37 = PRIM_CAR(v__3514531_37);
-Obj v__3515239_37 = PRIM_CAR(v__3515238_37);
-Obj v__3515240_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515239_37);
-if (True == v__3515240_37) {
-Obj v__3515241_37 = PRIM_CAR(v__3514531_37);
-Obj v__3515242_37 = PRIM_CDR(v__3515241_37);
-Obj v__3515243_37 = PRIM_ISCONS(v__3515242_37);
-if (True == v__3515243_37) {
-Obj v__3515244_37 = PRIM_CAR(v__3514531_37);
-Obj v__3515245_37 = PRIM_CDR(v__3515244_37);
-Obj v__3515246_37 = PRIM_CAR(v__3515245_37);
-Obj v__3514707_37 = v__3515246_37;
-Obj v__3515247_37 = PRIM_CAR(v__3514531_37);
-Obj v__3515248_37 = PRIM_CDR(v__3515247_37);
-Obj v__3515249_37 = PRIM_CDR(v__3515248_37);
-Obj v__3515250_37 = PRIM_EQ(Nil, v__3515249_37);
-if (True == v__3515250_37) {
-Obj v__3515251_37 = PRIM_CDR(v__3514531_37);
-Obj v__3514708_37 = v__3515251_37;
-Obj v__3515252_37 = makeCons(co->gc, v__3514707_37, v__3514532_37);
+Obj v__3514624_37 = R[1];
+Obj v__3514625_37 = R[2];
+Obj v__3514626_37 = R[3];
+Obj v__3514627_37 = R[4];
+Obj v__3514796_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3514626_37, v__3514624_37, v__3514625_37, v__3514627_37);
+Obj v__3515328_37 = PRIM_ISCONS(v__3514624_37);
+if (True == v__3515328_37) {
+Obj v__3515329_37 = PRIM_CAR(v__3514624_37);
+Obj v__3515330_37 = PRIM_ISCONS(v__3515329_37);
+if (True == v__3515330_37) {
+Obj v__3515331_37 = PRIM_CAR(v__3514624_37);
+Obj v__3515332_37 = PRIM_CAR(v__3515331_37);
+Obj v__3515333_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515332_37);
+if (True == v__3515333_37) {
+Obj v__3515334_37 = PRIM_CAR(v__3514624_37);
+Obj v__3515335_37 = PRIM_CDR(v__3515334_37);
+Obj v__3515336_37 = PRIM_ISCONS(v__3515335_37);
+if (True == v__3515336_37) {
+Obj v__3515337_37 = PRIM_CAR(v__3514624_37);
+Obj v__3515338_37 = PRIM_CDR(v__3515337_37);
+Obj v__3515339_37 = PRIM_CAR(v__3515338_37);
+Obj v__3514800_37 = v__3515339_37;
+Obj v__3515340_37 = PRIM_CAR(v__3514624_37);
+Obj v__3515341_37 = PRIM_CDR(v__3515340_37);
+Obj v__3515342_37 = PRIM_CDR(v__3515341_37);
+Obj v__3515343_37 = PRIM_EQ(Nil, v__3515342_37);
+if (True == v__3515343_37) {
+Obj v__3515344_37 = PRIM_CDR(v__3514624_37);
+Obj v__3514801_37 = v__3515344_37;
+Obj v__3515345_37 = makeCons(co->gc, v__3514800_37, v__3514625_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514708_37, v__3515252_37, v__3514533_37, v__3514534_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514801_37, v__3515345_37, v__3514626_37, v__3514627_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514703_37);
+coraCall0(co, v__3514796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514703_37);
+coraCall0(co, v__3514796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514703_37);
+coraCall0(co, v__3514796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514703_37);
+coraCall0(co, v__3514796_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514703_37);
+coraCall0(co, v__3514796_37);
 return;
 }
 }
@@ -1788,37 +1788,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514704_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515226_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3515226_37) {
-Obj v__3515227_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515228_37 = PRIM_ISCONS(v__3515227_37);
-if (True == v__3515228_37) {
-Obj v__3515229_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515230_37 = PRIM_CAR(v__3515229_37);
-Obj v__3515231_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515230_37);
-if (True == v__3515231_37) {
-Obj v__3515232_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515233_37 = PRIM_CDR(v__3515232_37);
-Obj v__3514705_37 = v__3515233_37;
-Obj v__3515234_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3514706_37 = v__3515234_37;
+Obj v__3514797_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515319_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3515319_37) {
+Obj v__3515320_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515321_37 = PRIM_ISCONS(v__3515320_37);
+if (True == v__3515321_37) {
+Obj v__3515322_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515323_37 = PRIM_CAR(v__3515322_37);
+Obj v__3515324_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515323_37);
+if (True == v__3515324_37) {
+Obj v__3515325_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515326_37 = PRIM_CDR(v__3515325_37);
+Obj v__3514798_37 = v__3515326_37;
+Obj v__3515327_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514799_37 = v__3515327_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514706_37, closureRef(R[0], 2), v__3514705_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514799_37, closureRef(R[0], 2), v__3514798_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514704_37);
+coraCall0(co, v__3514797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514704_37);
+coraCall0(co, v__3514797_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514704_37);
+coraCall0(co, v__3514797_37);
 return;
 }
 }
@@ -1835,9 +1835,9 @@ return;
 }
 case 1:
 {
-Obj v__3515225_37= co->res;
+Obj v__3515318_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3515225_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3515318_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,27 +1847,27 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514530_37 = R[1];
-R[1] = v__3514530_37;
+Obj v__3514623_37 = R[1];
+R[1] = v__3514623_37;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514530_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514623_37);
 return;
 }
 case 1:
 {
-Obj v__3515223_37= co->res;
-Obj v__3515222_37 = R[1];
+Obj v__3515316_37= co->res;
+Obj v__3515315_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515222_37, v__3515223_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515315_37, v__3515316_37);
 return;
 }
 case 2:
 {
-Obj v__3515222_37= co->res;
-Obj v__3514530_37 = R[1];
-R[1] = v__3515222_37;
+Obj v__3515315_37= co->res;
+Obj v__3514623_37 = R[1];
+R[1] = v__3515315_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514530_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514623_37);
 return;
 }
 }
@@ -1877,67 +1877,67 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514528_37 = R[1];
-Obj v__3514529_37 = R[2];
-R[1] = v__3514529_37;
-R[2] = v__3514528_37;
+Obj v__3514621_37 = R[1];
+Obj v__3514622_37 = R[2];
+R[1] = v__3514622_37;
+R[2] = v__3514621_37;
 saveCont(co, clofun76, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514529_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514622_37);
 return;
 }
 case 1:
 {
-Obj v__3515211_37= co->res;
-Obj v__3515210_37 = R[1];
-Obj v__3514528_37 = R[2];
-Obj v__3515212_37 = makeCons(co->gc, v__3515211_37, Nil);
-Obj v__3515213_37 = makeCons(co->gc, v__3515210_37, v__3515212_37);
-Obj v__3515214_37 = makeCons(co->gc, v__3514528_37, v__3515213_37);
-coraReturn(co, v__3515214_37);
+Obj v__3515304_37= co->res;
+Obj v__3515303_37 = R[1];
+Obj v__3514621_37 = R[2];
+Obj v__3515305_37 = makeCons(co->gc, v__3515304_37, Nil);
+Obj v__3515306_37 = makeCons(co->gc, v__3515303_37, v__3515305_37);
+Obj v__3515307_37 = makeCons(co->gc, v__3514621_37, v__3515306_37);
+coraReturn(co, v__3515307_37);
 return;
 }
 case 2:
 {
-Obj v__3515217_37= co->res;
-Obj v__3515215_37 = R[1];
-Obj v__3514528_37 = R[2];
-Obj v__3515218_37 = makeCons(co->gc, v__3515217_37, Nil);
-Obj v__3515219_37 = makeCons(co->gc, v__3515215_37, v__3515218_37);
-Obj v__3515220_37 = makeCons(co->gc, v__3514528_37, v__3515219_37);
-coraReturn(co, v__3515220_37);
+Obj v__3515310_37= co->res;
+Obj v__3515308_37 = R[1];
+Obj v__3514621_37 = R[2];
+Obj v__3515311_37 = makeCons(co->gc, v__3515310_37, Nil);
+Obj v__3515312_37 = makeCons(co->gc, v__3515308_37, v__3515311_37);
+Obj v__3515313_37 = makeCons(co->gc, v__3514621_37, v__3515312_37);
+coraReturn(co, v__3515313_37);
 return;
 }
 case 3:
 {
-Obj v__3515209_37= co->res;
-Obj v__3514529_37 = R[1];
-Obj v__3514528_37 = R[2];
-if (True == v__3515209_37) {
-Obj v__3515210_37 = PRIM_CAR(v__3514529_37);
-R[1] = v__3515210_37;
-R[2] = v__3514528_37;
+Obj v__3515302_37= co->res;
+Obj v__3514622_37 = R[1];
+Obj v__3514621_37 = R[2];
+if (True == v__3515302_37) {
+Obj v__3515303_37 = PRIM_CAR(v__3514622_37);
+R[1] = v__3515303_37;
+R[2] = v__3514621_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514529_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514622_37);
 return;
 } else {
-Obj v__3515215_37 = PRIM_CAR(v__3514529_37);
-Obj v__3515216_37 = PRIM_CDR(v__3514529_37);
-R[1] = v__3515215_37;
-R[2] = v__3514528_37;
+Obj v__3515308_37 = PRIM_CAR(v__3514622_37);
+Obj v__3515309_37 = PRIM_CDR(v__3514622_37);
+R[1] = v__3515308_37;
+R[2] = v__3514621_37;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514528_37, v__3515216_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514621_37, v__3515309_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3515208_37= co->res;
-Obj v__3514529_37 = R[1];
-Obj v__3514528_37 = R[2];
-R[1] = v__3514529_37;
-R[2] = v__3514528_37;
+Obj v__3515301_37= co->res;
+Obj v__3514622_37 = R[1];
+Obj v__3514621_37 = R[2];
+R[1] = v__3514622_37;
+R[2] = v__3514621_37;
 saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515208_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515301_37);
 return;
 }
 }
@@ -1947,16 +1947,16 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514527_37 = R[1];
+Obj v__3514620_37 = R[1];
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514527_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514620_37);
 return;
 }
 case 1:
 {
-Obj v__3515206_37= co->res;
+Obj v__3515299_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515206_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515299_37);
 return;
 }
 }
@@ -1966,50 +1966,50 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514518_37 = R[1];
-Obj v__3515186_37 = primIsSymbol(v__3514518_37);
-if (True == v__3515186_37) {
-Obj v__3515187_37 = makeCons(co->gc, v__3514518_37, Nil);
-Obj v__3515188_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515187_37);
-coraReturn(co, v__3515188_37);
-return;
-} else {
-Obj v__3514699_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3514518_37);
-Obj v__3515195_37 = PRIM_ISCONS(v__3514518_37);
-if (True == v__3515195_37) {
-Obj v__3515196_37 = PRIM_CAR(v__3514518_37);
-Obj v__3515197_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515196_37);
-if (True == v__3515197_37) {
-Obj v__3515198_37 = PRIM_CDR(v__3514518_37);
-Obj v__3515199_37 = PRIM_ISCONS(v__3515198_37);
-if (True == v__3515199_37) {
-Obj v__3515200_37 = PRIM_CDR(v__3514518_37);
-Obj v__3515201_37 = PRIM_CAR(v__3515200_37);
-Obj v__3514702_37 = v__3515201_37;
-Obj v__3515202_37 = PRIM_CDR(v__3514518_37);
-Obj v__3515203_37 = PRIM_CDR(v__3515202_37);
-Obj v__3515204_37 = PRIM_EQ(Nil, v__3515203_37);
-if (True == v__3515204_37) {
-coraReturn(co, v__3514702_37);
+Obj v__3514611_37 = R[1];
+Obj v__3515279_37 = primIsSymbol(v__3514611_37);
+if (True == v__3515279_37) {
+Obj v__3515280_37 = makeCons(co->gc, v__3514611_37, Nil);
+Obj v__3515281_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515280_37);
+coraReturn(co, v__3515281_37);
+return;
+} else {
+Obj v__3514792_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3514611_37);
+Obj v__3515288_37 = PRIM_ISCONS(v__3514611_37);
+if (True == v__3515288_37) {
+Obj v__3515289_37 = PRIM_CAR(v__3514611_37);
+Obj v__3515290_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515289_37);
+if (True == v__3515290_37) {
+Obj v__3515291_37 = PRIM_CDR(v__3514611_37);
+Obj v__3515292_37 = PRIM_ISCONS(v__3515291_37);
+if (True == v__3515292_37) {
+Obj v__3515293_37 = PRIM_CDR(v__3514611_37);
+Obj v__3515294_37 = PRIM_CAR(v__3515293_37);
+Obj v__3514795_37 = v__3515294_37;
+Obj v__3515295_37 = PRIM_CDR(v__3514611_37);
+Obj v__3515296_37 = PRIM_CDR(v__3515295_37);
+Obj v__3515297_37 = PRIM_EQ(Nil, v__3515296_37);
+if (True == v__3515297_37) {
+coraReturn(co, v__3514795_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514699_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514699_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514699_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514699_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 }
@@ -2021,15 +2021,15 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515189_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515189_37) {
-Obj v__3515190_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514700_37 = v__3515190_37;
-Obj v__3515191_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514701_37 = v__3515191_37;
-Obj v__3515192_37 = makeCons(co->gc, v__3514700_37, v__3514701_37);
+Obj v__3515282_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515282_37) {
+Obj v__3515283_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514793_37 = v__3515283_37;
+Obj v__3515284_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514794_37 = v__3515284_37;
+Obj v__3515285_37 = makeCons(co->gc, v__3514793_37, v__3514794_37);
 saveCont(co, clofun73, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3515192_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3515285_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2038,9 +2038,9 @@ return;
 }
 case 1:
 {
-Obj v__3515193_37= co->res;
-Obj v__3515194_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515193_37);
-coraReturn(co, v__3515194_37);
+Obj v__3515286_37= co->res;
+Obj v__3515287_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515286_37);
+coraReturn(co, v__3515287_37);
 return;
 }
 }
@@ -2050,10 +2050,10 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514517_37 = R[1];
-Obj v__3515184_37 = PRIM_CDR(v__3514517_37);
+Obj v__3514610_37 = R[1];
+Obj v__3515277_37 = PRIM_CDR(v__3514610_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515184_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515277_37);
 return;
 }
 }
@@ -2063,25 +2063,25 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514509_37 = R[1];
-Obj v__3514692_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3514509_37);
-Obj v__3515179_37 = PRIM_ISCONS(v__3514509_37);
-if (True == v__3515179_37) {
-Obj v__3515180_37 = PRIM_CAR(v__3514509_37);
-Obj v__3514698_37 = v__3515180_37;
-Obj v__3515181_37 = PRIM_CDR(v__3514509_37);
-Obj v__3515182_37 = PRIM_EQ(Nil, v__3515181_37);
-if (True == v__3515182_37) {
-coraReturn(co, v__3514698_37);
+Obj v__3514602_37 = R[1];
+Obj v__3514785_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3514602_37);
+Obj v__3515272_37 = PRIM_ISCONS(v__3514602_37);
+if (True == v__3515272_37) {
+Obj v__3515273_37 = PRIM_CAR(v__3514602_37);
+Obj v__3514791_37 = v__3515273_37;
+Obj v__3515274_37 = PRIM_CDR(v__3514602_37);
+Obj v__3515275_37 = PRIM_EQ(Nil, v__3515274_37);
+if (True == v__3515275_37) {
+coraReturn(co, v__3514791_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514692_37);
+coraCall0(co, v__3514785_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514692_37);
+coraCall0(co, v__3514785_37);
 return;
 }
 }
@@ -2092,39 +2092,39 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514693_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
-Obj v__3515167_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515167_37) {
-Obj v__3515168_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514696_37 = v__3515168_37;
-Obj v__3515169_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515170_37 = PRIM_ISCONS(v__3515169_37);
-if (True == v__3515170_37) {
-Obj v__3515171_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515172_37 = PRIM_CAR(v__3515171_37);
-Obj v__3514697_37 = v__3515172_37;
-Obj v__3515173_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515174_37 = PRIM_CDR(v__3515173_37);
-Obj v__3515175_37 = PRIM_EQ(Nil, v__3515174_37);
-if (True == v__3515175_37) {
-Obj v__3515176_37 = makeCons(co->gc, v__3514697_37, Nil);
-Obj v__3515177_37 = makeCons(co->gc, v__3514696_37, v__3515176_37);
-Obj v__3515178_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515177_37);
-coraReturn(co, v__3515178_37);
+Obj v__3514786_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
+Obj v__3515260_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515260_37) {
+Obj v__3515261_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514789_37 = v__3515261_37;
+Obj v__3515262_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515263_37 = PRIM_ISCONS(v__3515262_37);
+if (True == v__3515263_37) {
+Obj v__3515264_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515265_37 = PRIM_CAR(v__3515264_37);
+Obj v__3514790_37 = v__3515265_37;
+Obj v__3515266_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515267_37 = PRIM_CDR(v__3515266_37);
+Obj v__3515268_37 = PRIM_EQ(Nil, v__3515267_37);
+if (True == v__3515268_37) {
+Obj v__3515269_37 = makeCons(co->gc, v__3514790_37, Nil);
+Obj v__3515270_37 = makeCons(co->gc, v__3514789_37, v__3515269_37);
+Obj v__3515271_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515270_37);
+coraReturn(co, v__3515271_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514693_37);
+coraCall0(co, v__3514786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514693_37);
+coraCall0(co, v__3514786_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514693_37);
+coraCall0(co, v__3514786_37);
 return;
 }
 }
@@ -2135,15 +2135,15 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515160_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515160_37) {
-Obj v__3515161_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514694_37 = v__3515161_37;
-Obj v__3515162_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514695_37 = v__3515162_37;
-R[1] = v__3514694_37;
+Obj v__3515253_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515253_37) {
+Obj v__3515254_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514787_37 = v__3515254_37;
+Obj v__3515255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514788_37 = v__3515255_37;
+R[1] = v__3514787_37;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514695_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514788_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2153,12 +2153,12 @@ return;
 }
 case 1:
 {
-Obj v__3515163_37= co->res;
-Obj v__3514694_37 = R[1];
-Obj v__3515164_37 = makeCons(co->gc, v__3515163_37, Nil);
-Obj v__3515165_37 = makeCons(co->gc, v__3514694_37, v__3515164_37);
-Obj v__3515166_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515165_37);
-coraReturn(co, v__3515166_37);
+Obj v__3515256_37= co->res;
+Obj v__3514787_37 = R[1];
+Obj v__3515257_37 = makeCons(co->gc, v__3515256_37, Nil);
+Obj v__3515258_37 = makeCons(co->gc, v__3514787_37, v__3515257_37);
+Obj v__3515259_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515258_37);
+coraReturn(co, v__3515259_37);
 return;
 }
 }
@@ -2168,23 +2168,23 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514508_37 = R[1];
+Obj v__3514601_37 = R[1];
 saveCont(co, clofun68, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514508_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514601_37);
 return;
 }
 case 1:
 {
-Obj v__3515158_37= co->res;
+Obj v__3515251_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515158_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515251_37);
 return;
 }
 case 2:
 {
-Obj v__3515157_37= co->res;
+Obj v__3515250_37= co->res;
 saveCont(co, clofun68, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515157_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515250_37);
 return;
 }
 }
@@ -2194,8 +2194,8 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514507_37 = R[1];
-coraReturn(co, v__3514507_37);
+Obj v__3514600_37 = R[1];
+coraReturn(co, v__3514600_37);
 return;
 }
 }
@@ -2205,9 +2205,9 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514506_37 = R[1];
+Obj v__3514599_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514506_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514599_37);
 return;
 }
 }
@@ -2217,90 +2217,90 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514502_37 = R[1];
-R[1] = v__3514502_37;
+Obj v__3514595_37 = R[1];
+R[1] = v__3514595_37;
 saveCont(co, clofun65, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514502_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514595_37);
 return;
 }
 case 1:
 {
-Obj v__3515149_37= co->res;
-Obj v__3514691_37 = R[1];
-Obj v__3515147_37 = R[2];
-Obj v__3515150_37 = makeCons(co->gc, v__3515149_37, Nil);
-Obj v__3515151_37 = makeCons(co->gc, v__3514691_37, v__3515150_37);
-Obj v__3515152_37 = makeCons(co->gc, v__3515147_37, v__3515151_37);
-Obj v__3515153_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515152_37);
-coraReturn(co, v__3515153_37);
+Obj v__3515242_37= co->res;
+Obj v__3514784_37 = R[1];
+Obj v__3515240_37 = R[2];
+Obj v__3515243_37 = makeCons(co->gc, v__3515242_37, Nil);
+Obj v__3515244_37 = makeCons(co->gc, v__3514784_37, v__3515243_37);
+Obj v__3515245_37 = makeCons(co->gc, v__3515240_37, v__3515244_37);
+Obj v__3515246_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515245_37);
+coraReturn(co, v__3515246_37);
 return;
 }
 case 2:
 {
-Obj v__3515148_37= co->res;
-Obj v__3514689_37 = R[1];
-Obj v__3514691_37 = R[2];
-Obj v__3515147_37 = R[3];
-R[1] = v__3514691_37;
-R[2] = v__3515147_37;
+Obj v__3515241_37= co->res;
+Obj v__3514782_37 = R[1];
+Obj v__3514784_37 = R[2];
+Obj v__3515240_37 = R[3];
+R[1] = v__3514784_37;
+R[2] = v__3515240_37;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3515148_37, v__3514689_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3515241_37, v__3514782_37);
 return;
 }
 case 3:
 {
-Obj v__3515147_37= co->res;
-Obj v__3514689_37 = R[1];
-Obj v__3514691_37 = R[2];
-R[1] = v__3514689_37;
-R[2] = v__3514691_37;
-R[3] = v__3515147_37;
+Obj v__3515240_37= co->res;
+Obj v__3514782_37 = R[1];
+Obj v__3514784_37 = R[2];
+R[1] = v__3514782_37;
+R[2] = v__3514784_37;
+R[3] = v__3515240_37;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514691_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514784_37);
 return;
 }
 case 4:
 {
-Obj v__3515146_37= co->res;
-Obj v__3514502_37 = R[1];
-Obj v__3514689_37 = R[2];
-Obj v__3514691_37 = v__3515146_37;
-R[1] = v__3514689_37;
-R[2] = v__3514691_37;
+Obj v__3515239_37= co->res;
+Obj v__3514595_37 = R[1];
+Obj v__3514782_37 = R[2];
+Obj v__3514784_37 = v__3515239_37;
+R[1] = v__3514782_37;
+R[2] = v__3514784_37;
 saveCont(co, clofun65, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514502_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514595_37);
 return;
 }
 case 5:
 {
-Obj v__3515145_37= co->res;
-Obj v__3514502_37 = R[1];
-Obj v__3514689_37 = R[2];
-Obj v__3514690_37 = v__3515145_37;
-R[1] = v__3514502_37;
-R[2] = v__3514689_37;
+Obj v__3515238_37= co->res;
+Obj v__3514595_37 = R[1];
+Obj v__3514782_37 = R[2];
+Obj v__3514783_37 = v__3515238_37;
+R[1] = v__3514595_37;
+R[2] = v__3514782_37;
 saveCont(co, clofun65, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514690_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514783_37);
 return;
 }
 case 6:
 {
-Obj v__3515144_37= co->res;
-Obj v__3514502_37 = R[1];
-Obj v__3514689_37 = v__3515144_37;
-R[1] = v__3514502_37;
-R[2] = v__3514689_37;
+Obj v__3515237_37= co->res;
+Obj v__3514595_37 = R[1];
+Obj v__3514782_37 = v__3515237_37;
+R[1] = v__3514595_37;
+R[2] = v__3514782_37;
 saveCont(co, clofun65, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514689_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514782_37);
 return;
 }
 case 7:
 {
-Obj v__3515143_37= co->res;
-Obj v__3514502_37 = R[1];
-R[1] = v__3514502_37;
+Obj v__3515236_37= co->res;
+Obj v__3514595_37 = R[1];
+R[1] = v__3514595_37;
 saveCont(co, clofun65, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515143_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515236_37);
 return;
 }
 }
@@ -2310,26 +2310,26 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514501_37 = R[1];
-Obj v__3515137_37 = PRIM_EQ(v__3514501_37, MAKE_NUMBER(0));
-if (True == v__3515137_37) {
+Obj v__3514594_37 = R[1];
+Obj v__3515230_37 = PRIM_EQ(v__3514594_37, MAKE_NUMBER(0));
+if (True == v__3515230_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3515138_37 = primGenSym(co);
-Obj v__3515139_37 = PRIM_SUB(v__3514501_37, MAKE_NUMBER(1));
-R[1] = v__3515138_37;
+Obj v__3515231_37 = primGenSym(co);
+Obj v__3515232_37 = PRIM_SUB(v__3514594_37, MAKE_NUMBER(1));
+R[1] = v__3515231_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515139_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515232_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515140_37= co->res;
-Obj v__3515138_37 = R[1];
-Obj v__3515141_37 = makeCons(co->gc, v__3515138_37, v__3515140_37);
-coraReturn(co, v__3515141_37);
+Obj v__3515233_37= co->res;
+Obj v__3515231_37 = R[1];
+Obj v__3515234_37 = makeCons(co->gc, v__3515231_37, v__3515233_37);
+coraReturn(co, v__3515234_37);
 return;
 }
 }
@@ -2339,52 +2339,52 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514495_37 = R[1];
+Obj v__3514588_37 = R[1];
 saveCont(co, clofun63, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514495_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514588_37);
 return;
 }
 case 1:
 {
-Obj v__3515134_37= co->res;
-Obj v__3514688_37 = R[1];
-Obj v__3515135_37 = primNot(v__3515134_37);
-if (True == v__3515135_37) {
+Obj v__3515227_37= co->res;
+Obj v__3514781_37 = R[1];
+Obj v__3515228_37 = primNot(v__3515227_37);
+if (True == v__3515228_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3514688_37);
+coraReturn(co, v__3514781_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3515133_37= co->res;
-Obj v__3514688_37 = R[1];
-R[1] = v__3514688_37;
+Obj v__3515226_37= co->res;
+Obj v__3514781_37 = R[1];
+R[1] = v__3514781_37;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515133_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515226_37);
 return;
 }
 case 3:
 {
-Obj v__3515128_37= co->res;
-Obj v__3514687_37 = v__3515128_37;
-Obj v__3515129_37 = PRIM_CAR(v__3514687_37);
-Obj v__3514688_37 = v__3515129_37;
-Obj v__3515132_37 = PRIM_CDR(v__3514687_37);
-R[1] = v__3514688_37;
+Obj v__3515221_37= co->res;
+Obj v__3514780_37 = v__3515221_37;
+Obj v__3515222_37 = PRIM_CAR(v__3514780_37);
+Obj v__3514781_37 = v__3515222_37;
+Obj v__3515225_37 = PRIM_CDR(v__3514780_37);
+R[1] = v__3514781_37;
 saveCont(co, clofun63, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3514688_37), v__3515132_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3514781_37), v__3515225_37);
 return;
 }
 case 4:
 {
-Obj v__3515126_37= co->res;
-Obj v__3514686_37 = v__3515126_37;
+Obj v__3515219_37= co->res;
+Obj v__3514779_37 = v__3515219_37;
 saveCont(co, clofun63, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3514686_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3514779_37);
 return;
 }
 }
@@ -2394,10 +2394,10 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514500_37 = R[1];
-Obj v__3515130_37 = PRIM_EQ(closureRef(R[0], 0), v__3514500_37);
-Obj v__3515131_37 = primNot(v__3515130_37);
-coraReturn(co, v__3515131_37);
+Obj v__3514593_37 = R[1];
+Obj v__3515223_37 = PRIM_EQ(closureRef(R[0], 0), v__3514593_37);
+Obj v__3515224_37 = primNot(v__3515223_37);
+coraReturn(co, v__3515224_37);
 return;
 }
 }
@@ -2407,10 +2407,10 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514497_37 = R[1];
-Obj v__3515127_37 = PRIM_CDR(v__3514497_37);
+Obj v__3514590_37 = R[1];
+Obj v__3515220_37 = PRIM_CDR(v__3514590_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515127_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515220_37);
 return;
 }
 }
@@ -2420,27 +2420,27 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514493_37 = R[1];
-Obj v__3514494_37 = R[2];
-Obj v__3515120_37 = PRIM_EQ(v__3514493_37, Nil);
-if (True == v__3515120_37) {
-coraReturn(co, v__3514494_37);
+Obj v__3514586_37 = R[1];
+Obj v__3514587_37 = R[2];
+Obj v__3515213_37 = PRIM_EQ(v__3514586_37, Nil);
+if (True == v__3515213_37) {
+coraReturn(co, v__3514587_37);
 return;
 } else {
-Obj v__3515121_37 = PRIM_CAR(v__3514493_37);
-Obj v__3515122_37 = PRIM_CDR(v__3514493_37);
-R[1] = v__3515121_37;
+Obj v__3515214_37 = PRIM_CAR(v__3514586_37);
+Obj v__3515215_37 = PRIM_CDR(v__3514586_37);
+R[1] = v__3515214_37;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515122_37, v__3514494_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515215_37, v__3514587_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515123_37= co->res;
-Obj v__3515121_37 = R[1];
-Obj v__3515124_37 = makeCons(co->gc, v__3515121_37, v__3515123_37);
-coraReturn(co, v__3515124_37);
+Obj v__3515216_37= co->res;
+Obj v__3515214_37 = R[1];
+Obj v__3515217_37 = makeCons(co->gc, v__3515214_37, v__3515216_37);
+coraReturn(co, v__3515217_37);
 return;
 }
 }
@@ -2450,10 +2450,10 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514491_37 = R[1];
-Obj v__3514492_37 = R[2];
+Obj v__3514584_37 = R[1];
+Obj v__3514585_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514491_37, v__3514492_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514584_37, v__3514585_37);
 return;
 }
 }
@@ -2463,41 +2463,41 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514488_37 = R[1];
-Obj v__3514489_37 = R[2];
-Obj v__3514490_37 = R[3];
-Obj v__3515111_37 = PRIM_ISCONS(v__3514490_37);
-if (True == v__3515111_37) {
-Obj v__3515112_37 = PRIM_CAR(v__3514490_37);
-R[1] = v__3514490_37;
-R[2] = v__3514488_37;
-R[3] = v__3514489_37;
+Obj v__3514581_37 = R[1];
+Obj v__3514582_37 = R[2];
+Obj v__3514583_37 = R[3];
+Obj v__3515204_37 = PRIM_ISCONS(v__3514583_37);
+if (True == v__3515204_37) {
+Obj v__3515205_37 = PRIM_CAR(v__3514583_37);
+R[1] = v__3514583_37;
+R[2] = v__3514581_37;
+R[3] = v__3514582_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, v__3514489_37, v__3515112_37);
+coraCall1(co, v__3514582_37, v__3515205_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514488_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514581_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515113_37= co->res;
-Obj v__3514490_37 = R[1];
-Obj v__3514488_37 = R[2];
-Obj v__3514489_37 = R[3];
-if (True == v__3515113_37) {
-Obj v__3515114_37 = PRIM_CAR(v__3514490_37);
-Obj v__3515115_37 = makeCons(co->gc, v__3515114_37, v__3514488_37);
-Obj v__3515116_37 = PRIM_CDR(v__3514490_37);
+Obj v__3515206_37= co->res;
+Obj v__3514583_37 = R[1];
+Obj v__3514581_37 = R[2];
+Obj v__3514582_37 = R[3];
+if (True == v__3515206_37) {
+Obj v__3515207_37 = PRIM_CAR(v__3514583_37);
+Obj v__3515208_37 = makeCons(co->gc, v__3515207_37, v__3514581_37);
+Obj v__3515209_37 = PRIM_CDR(v__3514583_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515115_37, v__3514489_37, v__3515116_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515208_37, v__3514582_37, v__3515209_37);
 return;
 } else {
-Obj v__3515117_37 = PRIM_CDR(v__3514490_37);
+Obj v__3515210_37 = PRIM_CDR(v__3514583_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514488_37, v__3514489_37, v__3515117_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514581_37, v__3514582_37, v__3515210_37);
 return;
 }
 }
@@ -2508,9 +2508,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514487_37 = R[1];
+Obj v__3514580_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514487_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514580_37);
 return;
 }
 }
@@ -2520,17 +2520,17 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514485_37 = R[1];
-Obj v__3514486_37 = R[2];
-Obj v__3515106_37 = PRIM_EQ(v__3514486_37, Nil);
-if (True == v__3515106_37) {
-coraReturn(co, v__3514485_37);
+Obj v__3514578_37 = R[1];
+Obj v__3514579_37 = R[2];
+Obj v__3515199_37 = PRIM_EQ(v__3514579_37, Nil);
+if (True == v__3515199_37) {
+coraReturn(co, v__3514578_37);
 return;
 } else {
-Obj v__3515107_37 = PRIM_ADD(v__3514485_37, MAKE_NUMBER(1));
-Obj v__3515108_37 = PRIM_CDR(v__3514486_37);
+Obj v__3515200_37 = PRIM_ADD(v__3514578_37, MAKE_NUMBER(1));
+Obj v__3515201_37 = PRIM_CDR(v__3514579_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515107_37, v__3515108_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515200_37, v__3515201_37);
 return;
 }
 }
@@ -2541,37 +2541,37 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514483_37 = R[1];
-Obj v__3514484_37 = R[2];
-R[1] = v__3514483_37;
-R[2] = v__3514484_37;
+Obj v__3514576_37 = R[1];
+Obj v__3514577_37 = R[2];
+R[1] = v__3514576_37;
+R[2] = v__3514577_37;
 saveCont(co, clofun55, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514484_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514577_37);
 return;
 }
 case 1:
 {
-Obj v__3515104_37= co->res;
-Obj v__3515103_37 = R[1];
+Obj v__3515197_37= co->res;
+Obj v__3515196_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515103_37, v__3515104_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515196_37, v__3515197_37);
 return;
 }
 case 2:
 {
-Obj v__3515101_37= co->res;
-Obj v__3514483_37 = R[1];
-Obj v__3514484_37 = R[2];
-if (True == v__3515101_37) {
+Obj v__3515194_37= co->res;
+Obj v__3514576_37 = R[1];
+Obj v__3514577_37 = R[2];
+if (True == v__3515194_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514483_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514576_37);
 return;
 } else {
-Obj v__3515102_37 = PRIM_CAR(v__3514484_37);
-Obj v__3515103_37 = makeCons(co->gc, v__3515102_37, v__3514483_37);
-R[1] = v__3515103_37;
+Obj v__3515195_37 = PRIM_CAR(v__3514577_37);
+Obj v__3515196_37 = makeCons(co->gc, v__3515195_37, v__3514576_37);
+R[1] = v__3515196_37;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514484_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514577_37);
 return;
 }
 }
@@ -2582,9 +2582,9 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514482_37 = R[1];
+Obj v__3514575_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514482_37, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514575_37, Nil, Nil);
 return;
 }
 }
@@ -2594,106 +2594,106 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514457_37 = R[1];
-Obj v__3514458_37 = R[2];
-Obj v__3514459_37 = R[3];
-Obj v__3515048_37 = PRIM_EQ(Nil, v__3514457_37);
-if (True == v__3515048_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514459_37);
-return;
-} else {
-Obj v__3514675_37 = makeNative(co->gc, 3, clofun52, 0, 3, v__3514457_37, v__3514458_37, v__3514459_37);
-Obj v__3515066_37 = PRIM_ISCONS(v__3514457_37);
-if (True == v__3515066_37) {
-Obj v__3515067_37 = PRIM_CAR(v__3514457_37);
-Obj v__3515068_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515067_37);
-if (True == v__3515068_37) {
-Obj v__3515069_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515070_37 = PRIM_ISCONS(v__3515069_37);
-if (True == v__3515070_37) {
-Obj v__3515071_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515072_37 = PRIM_CAR(v__3515071_37);
-Obj v__3514682_37 = v__3515072_37;
-Obj v__3515073_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515074_37 = PRIM_CDR(v__3515073_37);
-Obj v__3515075_37 = PRIM_ISCONS(v__3515074_37);
-if (True == v__3515075_37) {
-Obj v__3515076_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515077_37 = PRIM_CDR(v__3515076_37);
-Obj v__3515078_37 = PRIM_CAR(v__3515077_37);
-Obj v__3515079_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3515078_37);
-if (True == v__3515079_37) {
-Obj v__3515080_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515081_37 = PRIM_CDR(v__3515080_37);
-Obj v__3515082_37 = PRIM_CDR(v__3515081_37);
-Obj v__3515083_37 = PRIM_ISCONS(v__3515082_37);
-if (True == v__3515083_37) {
-Obj v__3515084_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515085_37 = PRIM_CDR(v__3515084_37);
-Obj v__3515086_37 = PRIM_CDR(v__3515085_37);
-Obj v__3515087_37 = PRIM_CAR(v__3515086_37);
-Obj v__3514683_37 = v__3515087_37;
-Obj v__3515088_37 = PRIM_CDR(v__3514457_37);
-Obj v__3515089_37 = PRIM_CDR(v__3515088_37);
-Obj v__3515090_37 = PRIM_CDR(v__3515089_37);
-Obj v__3515091_37 = PRIM_CDR(v__3515090_37);
-Obj v__3514684_37 = v__3515091_37;
-R[1] = v__3514682_37;
-R[2] = v__3514683_37;
-R[3] = v__3514459_37;
-R[4] = v__3514684_37;
+Obj v__3514550_37 = R[1];
+Obj v__3514551_37 = R[2];
+Obj v__3514552_37 = R[3];
+Obj v__3515141_37 = PRIM_EQ(Nil, v__3514550_37);
+if (True == v__3515141_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514552_37);
+return;
+} else {
+Obj v__3514768_37 = makeNative(co->gc, 3, clofun52, 0, 3, v__3514550_37, v__3514551_37, v__3514552_37);
+Obj v__3515159_37 = PRIM_ISCONS(v__3514550_37);
+if (True == v__3515159_37) {
+Obj v__3515160_37 = PRIM_CAR(v__3514550_37);
+Obj v__3515161_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515160_37);
+if (True == v__3515161_37) {
+Obj v__3515162_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515163_37 = PRIM_ISCONS(v__3515162_37);
+if (True == v__3515163_37) {
+Obj v__3515164_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515165_37 = PRIM_CAR(v__3515164_37);
+Obj v__3514775_37 = v__3515165_37;
+Obj v__3515166_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515167_37 = PRIM_CDR(v__3515166_37);
+Obj v__3515168_37 = PRIM_ISCONS(v__3515167_37);
+if (True == v__3515168_37) {
+Obj v__3515169_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515170_37 = PRIM_CDR(v__3515169_37);
+Obj v__3515171_37 = PRIM_CAR(v__3515170_37);
+Obj v__3515172_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3515171_37);
+if (True == v__3515172_37) {
+Obj v__3515173_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515174_37 = PRIM_CDR(v__3515173_37);
+Obj v__3515175_37 = PRIM_CDR(v__3515174_37);
+Obj v__3515176_37 = PRIM_ISCONS(v__3515175_37);
+if (True == v__3515176_37) {
+Obj v__3515177_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515178_37 = PRIM_CDR(v__3515177_37);
+Obj v__3515179_37 = PRIM_CDR(v__3515178_37);
+Obj v__3515180_37 = PRIM_CAR(v__3515179_37);
+Obj v__3514776_37 = v__3515180_37;
+Obj v__3515181_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515182_37 = PRIM_CDR(v__3515181_37);
+Obj v__3515183_37 = PRIM_CDR(v__3515182_37);
+Obj v__3515184_37 = PRIM_CDR(v__3515183_37);
+Obj v__3514777_37 = v__3515184_37;
+R[1] = v__3514775_37;
+R[2] = v__3514776_37;
+R[3] = v__3514552_37;
+R[4] = v__3514777_37;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514458_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514551_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514675_37);
+coraCall0(co, v__3514768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514675_37);
+coraCall0(co, v__3514768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514675_37);
+coraCall0(co, v__3514768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514675_37);
+coraCall0(co, v__3514768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514675_37);
+coraCall0(co, v__3514768_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514675_37);
+coraCall0(co, v__3514768_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515092_37= co->res;
-Obj v__3514682_37 = R[1];
-Obj v__3514683_37 = R[2];
-Obj v__3514459_37 = R[3];
-Obj v__3514684_37 = R[4];
-Obj v__3515093_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515092_37);
-Obj v__3514685_37 = v__3515093_37;
-Obj v__3515094_37 = makeCons(co->gc, v__3514682_37, Nil);
-Obj v__3515095_37 = makeCons(co->gc, v__3514683_37, v__3515094_37);
-Obj v__3515096_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3515095_37);
-Obj v__3515097_37 = makeCons(co->gc, v__3514685_37, v__3514459_37);
-Obj v__3515098_37 = makeCons(co->gc, v__3515096_37, v__3515097_37);
+Obj v__3515185_37= co->res;
+Obj v__3514775_37 = R[1];
+Obj v__3514776_37 = R[2];
+Obj v__3514552_37 = R[3];
+Obj v__3514777_37 = R[4];
+Obj v__3515186_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515185_37);
+Obj v__3514778_37 = v__3515186_37;
+Obj v__3515187_37 = makeCons(co->gc, v__3514775_37, Nil);
+Obj v__3515188_37 = makeCons(co->gc, v__3514776_37, v__3515187_37);
+Obj v__3515189_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3515188_37);
+Obj v__3515190_37 = makeCons(co->gc, v__3514778_37, v__3514552_37);
+Obj v__3515191_37 = makeCons(co->gc, v__3515189_37, v__3515190_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514684_37, Nil, v__3515098_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514777_37, Nil, v__3515191_37);
 return;
 }
 }
@@ -2703,53 +2703,53 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514676_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3515053_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515053_37) {
-Obj v__3515054_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515055_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515054_37);
-if (True == v__3515055_37) {
-Obj v__3515056_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515057_37 = PRIM_ISCONS(v__3515056_37);
-if (True == v__3515057_37) {
-Obj v__3515058_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515059_37 = PRIM_CAR(v__3515058_37);
-Obj v__3514679_37 = v__3515059_37;
-Obj v__3515060_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515061_37 = PRIM_CDR(v__3515060_37);
-Obj v__3514680_37 = v__3515061_37;
-R[1] = v__3514679_37;
-R[2] = v__3514680_37;
+Obj v__3514769_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515146_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515146_37) {
+Obj v__3515147_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515148_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515147_37);
+if (True == v__3515148_37) {
+Obj v__3515149_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515150_37 = PRIM_ISCONS(v__3515149_37);
+if (True == v__3515150_37) {
+Obj v__3515151_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515152_37 = PRIM_CAR(v__3515151_37);
+Obj v__3514772_37 = v__3515152_37;
+Obj v__3515153_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515154_37 = PRIM_CDR(v__3515153_37);
+Obj v__3514773_37 = v__3515154_37;
+R[1] = v__3514772_37;
+R[2] = v__3514773_37;
 saveCont(co, clofun52, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514676_37);
+coraCall0(co, v__3514769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514676_37);
+coraCall0(co, v__3514769_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514676_37);
+coraCall0(co, v__3514769_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515062_37= co->res;
-Obj v__3514679_37 = R[1];
-Obj v__3514680_37 = R[2];
-Obj v__3515063_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515062_37);
-Obj v__3514681_37 = v__3515063_37;
-Obj v__3515064_37 = makeCons(co->gc, v__3514681_37, closureRef(R[0], 2));
-Obj v__3515065_37 = makeCons(co->gc, v__3514679_37, v__3515064_37);
+Obj v__3515155_37= co->res;
+Obj v__3514772_37 = R[1];
+Obj v__3514773_37 = R[2];
+Obj v__3515156_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515155_37);
+Obj v__3514774_37 = v__3515156_37;
+Obj v__3515157_37 = makeCons(co->gc, v__3514774_37, closureRef(R[0], 2));
+Obj v__3515158_37 = makeCons(co->gc, v__3514772_37, v__3515157_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514680_37, Nil, v__3515065_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514773_37, Nil, v__3515158_37);
 return;
 }
 }
@@ -2759,15 +2759,15 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515049_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515049_37) {
-Obj v__3515050_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514677_37 = v__3515050_37;
-Obj v__3515051_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514678_37 = v__3515051_37;
-Obj v__3515052_37 = makeCons(co->gc, v__3514677_37, closureRef(R[0], 1));
+Obj v__3515142_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515142_37) {
+Obj v__3515143_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514770_37 = v__3515143_37;
+Obj v__3515144_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514771_37 = v__3515144_37;
+Obj v__3515145_37 = makeCons(co->gc, v__3514770_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514678_37, v__3515052_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514771_37, v__3515145_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2782,9 +2782,9 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514456_37 = R[1];
+Obj v__3514549_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514456_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514549_37);
 return;
 }
 }
@@ -2794,37 +2794,37 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514453_37 = R[1];
-R[1] = v__3514453_37;
+Obj v__3514546_37 = R[1];
+R[1] = v__3514546_37;
 saveCont(co, clofun49, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514453_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514546_37);
 return;
 }
 case 1:
 {
-Obj v__3515045_37= co->res;
-Obj v__3514674_37 = R[1];
+Obj v__3515138_37= co->res;
+Obj v__3514767_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515045_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3514674_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515138_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3514767_37));
 return;
 }
 case 2:
 {
-Obj v__3515044_37= co->res;
-Obj v__3514674_37 = R[1];
-R[1] = v__3514674_37;
+Obj v__3515137_37= co->res;
+Obj v__3514767_37 = R[1];
+R[1] = v__3514767_37;
 saveCont(co, clofun49, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3515044_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3515137_37);
 return;
 }
 case 3:
 {
-Obj v__3515043_37= co->res;
-Obj v__3514453_37 = R[1];
-Obj v__3514674_37 = v__3515043_37;
-R[1] = v__3514674_37;
+Obj v__3515136_37= co->res;
+Obj v__3514546_37 = R[1];
+Obj v__3514767_37 = v__3515136_37;
+R[1] = v__3514767_37;
 saveCont(co, clofun49, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514453_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514546_37);
 return;
 }
 }
@@ -2834,9 +2834,9 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514455_37 = R[1];
+Obj v__3514548_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3514455_37, closureRef(R[0], 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3514548_37, closureRef(R[0], 0));
 return;
 }
 }
@@ -2846,25 +2846,25 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514448_37 = R[1];
-Obj v__3514449_37 = R[2];
-Obj v__3514669_37 = makeNative(co->gc, 2, clofun46, 1, 2, v__3514449_37, v__3514448_37);
-Obj v__3515039_37 = PRIM_ISCONS(v__3514448_37);
-if (True == v__3515039_37) {
-Obj v__3515040_37 = PRIM_CAR(v__3514448_37);
-Obj v__3515041_37 = PRIM_EQ(v__3515040_37, getBinding(co, packageID, 153).name);
-if (True == v__3515041_37) {
+Obj v__3514541_37 = R[1];
+Obj v__3514542_37 = R[2];
+Obj v__3514762_37 = makeNative(co->gc, 2, clofun46, 1, 2, v__3514542_37, v__3514541_37);
+Obj v__3515132_37 = PRIM_ISCONS(v__3514541_37);
+if (True == v__3515132_37) {
+Obj v__3515133_37 = PRIM_CAR(v__3514541_37);
+Obj v__3515134_37 = PRIM_EQ(v__3515133_37, getBinding(co, packageID, 153).name);
+if (True == v__3515134_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514669_37, True);
+coraCall1(co, v__3514762_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514669_37, False);
+coraCall1(co, v__3514762_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514669_37, False);
+coraCall1(co, v__3514762_37, False);
 return;
 }
 }
@@ -2875,14 +2875,14 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514668_37 = R[1];
-if (True == v__3514668_37) {
+Obj v__3514761_37 = R[1];
+if (True == v__3514761_37) {
 saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514672_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-R[1] = v__3514672_37;
+Obj v__3514765_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+R[1] = v__3514765_37;
 saveCont(co, clofun46, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 1));
 return;
@@ -2890,30 +2890,30 @@ return;
 }
 case 1:
 {
-Obj v__3515025_37= co->res;
+Obj v__3515118_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515025_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515118_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
 return;
 }
 case 2:
 {
-Obj v__3515036_37= co->res;
-Obj v__3514672_37 = R[1];
-if (True == v__3515036_37) {
-Obj v__3515037_37 = primIsSymbol(closureRef(R[0], 1));
-Obj v__3515038_37 = primNot(v__3515037_37);
-if (True == v__3515038_37) {
+Obj v__3515129_37= co->res;
+Obj v__3514765_37 = R[1];
+if (True == v__3515129_37) {
+Obj v__3515130_37 = primIsSymbol(closureRef(R[0], 1));
+Obj v__3515131_37 = primNot(v__3515130_37);
+if (True == v__3515131_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514672_37, True);
+coraCall1(co, v__3514765_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514672_37, False);
+coraCall1(co, v__3514765_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514672_37, False);
+coraCall1(co, v__3514765_37, False);
 return;
 }
 }
@@ -2924,29 +2924,29 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514671_37 = R[1];
-if (True == v__3514671_37) {
+Obj v__3514764_37 = R[1];
+if (True == v__3514764_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-Obj v__3515030_37 = primGenSym(co);
-Obj v__3514673_37 = v__3515030_37;
-R[1] = v__3514673_37;
+Obj v__3515123_37 = primGenSym(co);
+Obj v__3514766_37 = v__3515123_37;
+R[1] = v__3514766_37;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3514673_37);
+coraCall1(co, closureRef(R[0], 1), v__3514766_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515031_37= co->res;
-Obj v__3514673_37 = R[1];
-Obj v__3515032_37 = makeCons(co->gc, v__3515031_37, Nil);
-Obj v__3515033_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515032_37);
-Obj v__3515034_37 = makeCons(co->gc, v__3514673_37, v__3515033_37);
-Obj v__3515035_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515034_37);
-coraReturn(co, v__3515035_37);
+Obj v__3515124_37= co->res;
+Obj v__3514766_37 = R[1];
+Obj v__3515125_37 = makeCons(co->gc, v__3515124_37, Nil);
+Obj v__3515126_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515125_37);
+Obj v__3515127_37 = makeCons(co->gc, v__3514766_37, v__3515126_37);
+Obj v__3515128_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515127_37);
+coraReturn(co, v__3515128_37);
 return;
 }
 }
@@ -2956,18 +2956,18 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514450_37 = R[1];
-R[1] = v__3514450_37;
+Obj v__3514543_37 = R[1];
+R[1] = v__3514543_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 0));
 return;
 }
 case 1:
 {
-Obj v__3515026_37= co->res;
-Obj v__3514450_37 = R[1];
+Obj v__3515119_37= co->res;
+Obj v__3514543_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515026_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v__3514450_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515119_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v__3514543_37));
 return;
 }
 }
@@ -2977,12 +2977,12 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514451_37 = R[1];
-Obj v__3515027_37 = makeCons(co->gc, v__3514451_37, Nil);
-Obj v__3515028_37 = makeCons(co->gc, closureRef(R[0], 1), v__3515027_37);
-Obj v__3515029_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515028_37);
+Obj v__3514544_37 = R[1];
+Obj v__3515120_37 = makeCons(co->gc, v__3514544_37, Nil);
+Obj v__3515121_37 = makeCons(co->gc, closureRef(R[0], 1), v__3515120_37);
+Obj v__3515122_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515121_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 0), v__3515029_37);
+coraCall1(co, closureRef(R[0], 0), v__3515122_37);
 return;
 }
 }
@@ -2992,61 +2992,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514441_37 = R[1];
-Obj v__3514442_37 = R[2];
-R[1] = v__3514441_37;
-R[2] = v__3514442_37;
+Obj v__3514534_37 = R[1];
+Obj v__3514535_37 = R[2];
+R[1] = v__3514534_37;
+R[2] = v__3514535_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514442_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514535_37);
 return;
 }
 case 1:
 {
-Obj v__3515023_37= co->res;
-Obj v__3514661_37 = R[1];
-if (True == v__3515023_37) {
+Obj v__3515116_37= co->res;
+Obj v__3514754_37 = R[1];
+if (True == v__3515116_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514661_37, True);
+coraCall1(co, v__3514754_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514661_37, False);
+coraCall1(co, v__3514754_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3515021_37= co->res;
-Obj v__3514442_37 = R[1];
-Obj v__3514661_37 = R[2];
-if (True == v__3515021_37) {
-Obj v__3515022_37 = PRIM_CDR(v__3514442_37);
-R[1] = v__3514661_37;
+Obj v__3515114_37= co->res;
+Obj v__3514535_37 = R[1];
+Obj v__3514754_37 = R[2];
+if (True == v__3515114_37) {
+Obj v__3515115_37 = PRIM_CDR(v__3514535_37);
+R[1] = v__3514754_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3515022_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3515115_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514661_37, False);
+coraCall1(co, v__3514754_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3515003_37= co->res;
-Obj v__3514441_37 = R[1];
-Obj v__3514442_37 = R[2];
-if (True == v__3515003_37) {
-Obj v__3515004_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3515005_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3515004_37);
-coraReturn(co, v__3515005_37);
+Obj v__3515096_37= co->res;
+Obj v__3514534_37 = R[1];
+Obj v__3514535_37 = R[2];
+if (True == v__3515096_37) {
+Obj v__3515097_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3515098_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3515097_37);
+coraReturn(co, v__3515098_37);
 return;
 } else {
-Obj v__3514661_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514441_37, v__3514442_37);
-R[1] = v__3514442_37;
-R[2] = v__3514661_37;
+Obj v__3514754_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514534_37, v__3514535_37);
+R[1] = v__3514535_37;
+R[2] = v__3514754_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514442_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514535_37);
 return;
 }
 }
@@ -3057,16 +3057,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514660_37 = R[1];
-if (True == v__3514660_37) {
-Obj v__3515006_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3514662_37 = v__3515006_37;
-Obj v__3515007_37 = primGenSym(co);
-Obj v__3514663_37 = v__3515007_37;
-R[1] = v__3514662_37;
-R[2] = v__3514663_37;
+Obj v__3514753_37 = R[1];
+if (True == v__3514753_37) {
+Obj v__3515099_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514755_37 = v__3515099_37;
+Obj v__3515100_37 = primGenSym(co);
+Obj v__3514756_37 = v__3515100_37;
+R[1] = v__3514755_37;
+R[2] = v__3514756_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3514663_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3514756_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3076,53 +3076,53 @@ return;
 }
 case 1:
 {
-Obj v__3515013_37= co->res;
-Obj v__3514665_37 = R[1];
-Obj v__3514663_37 = R[2];
-Obj v__3514666_37 = v__3515013_37;
-Obj v__3515014_37 = makeCons(co->gc, v__3514666_37, Nil);
-Obj v__3515015_37 = makeCons(co->gc, Nil, v__3515014_37);
-Obj v__3515016_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515015_37);
-Obj v__3515017_37 = makeCons(co->gc, v__3514665_37, Nil);
-Obj v__3515018_37 = makeCons(co->gc, v__3515016_37, v__3515017_37);
-Obj v__3515019_37 = makeCons(co->gc, v__3514663_37, v__3515018_37);
-Obj v__3515020_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515019_37);
-coraReturn(co, v__3515020_37);
+Obj v__3515106_37= co->res;
+Obj v__3514758_37 = R[1];
+Obj v__3514756_37 = R[2];
+Obj v__3514759_37 = v__3515106_37;
+Obj v__3515107_37 = makeCons(co->gc, v__3514759_37, Nil);
+Obj v__3515108_37 = makeCons(co->gc, Nil, v__3515107_37);
+Obj v__3515109_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515108_37);
+Obj v__3515110_37 = makeCons(co->gc, v__3514758_37, Nil);
+Obj v__3515111_37 = makeCons(co->gc, v__3515109_37, v__3515110_37);
+Obj v__3515112_37 = makeCons(co->gc, v__3514756_37, v__3515111_37);
+Obj v__3515113_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515112_37);
+coraReturn(co, v__3515113_37);
 return;
 }
 case 2:
 {
-Obj v__3515010_37= co->res;
-Obj v__3514663_37 = R[1];
-Obj v__3514665_37 = v__3515010_37;
-Obj v__3515011_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3515012_37 = PRIM_CDR(v__3515011_37);
-R[1] = v__3514665_37;
-R[2] = v__3514663_37;
+Obj v__3515103_37= co->res;
+Obj v__3514756_37 = R[1];
+Obj v__3514758_37 = v__3515103_37;
+Obj v__3515104_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3515105_37 = PRIM_CDR(v__3515104_37);
+R[1] = v__3514758_37;
+R[2] = v__3514756_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3515012_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3515105_37);
 return;
 }
 case 3:
 {
-Obj v__3515009_37= co->res;
-Obj v__3514664_37 = R[1];
-Obj v__3514663_37 = R[2];
-R[1] = v__3514663_37;
+Obj v__3515102_37= co->res;
+Obj v__3514757_37 = R[1];
+Obj v__3514756_37 = R[2];
+R[1] = v__3514756_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3515009_37, closureRef(R[0], 0), v__3514664_37, v__3514663_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3515102_37, closureRef(R[0], 0), v__3514757_37, v__3514756_37);
 return;
 }
 case 4:
 {
-Obj v__3515008_37= co->res;
-Obj v__3514662_37 = R[1];
-Obj v__3514663_37 = R[2];
-Obj v__3514664_37 = v__3515008_37;
-R[1] = v__3514664_37;
-R[2] = v__3514663_37;
+Obj v__3515101_37= co->res;
+Obj v__3514755_37 = R[1];
+Obj v__3514756_37 = R[2];
+Obj v__3514757_37 = v__3515101_37;
+R[1] = v__3514757_37;
+R[2] = v__3514756_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3514662_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3514755_37);
 return;
 }
 }
@@ -3132,38 +3132,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514438_37 = R[1];
-Obj v__3514439_37 = R[2];
-Obj v__3514990_37 = PRIM_CDR(v__3514438_37);
-Obj v__3514991_37 = PRIM_CAR(v__3514990_37);
-Obj v__3514655_37 = v__3514991_37;
-Obj v__3514658_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514439_37, v__3514655_37);
-R[1] = v__3514655_37;
-R[2] = v__3514658_37;
+Obj v__3514531_37 = R[1];
+Obj v__3514532_37 = R[2];
+Obj v__3515083_37 = PRIM_CDR(v__3514531_37);
+Obj v__3515084_37 = PRIM_CAR(v__3515083_37);
+Obj v__3514748_37 = v__3515084_37;
+Obj v__3514751_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514532_37, v__3514748_37);
+R[1] = v__3514748_37;
+R[2] = v__3514751_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514655_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514748_37);
 return;
 }
 case 1:
 {
-Obj v__3514999_37= co->res;
-Obj v__3514655_37 = R[1];
-Obj v__3514658_37 = R[2];
-if (True == v__3514999_37) {
-Obj v__3515000_37 = PRIM_CAR(v__3514655_37);
-Obj v__3515001_37 = PRIM_EQ(v__3515000_37, getBinding(co, packageID, 111).name);
-if (True == v__3515001_37) {
+Obj v__3515092_37= co->res;
+Obj v__3514748_37 = R[1];
+Obj v__3514751_37 = R[2];
+if (True == v__3515092_37) {
+Obj v__3515093_37 = PRIM_CAR(v__3514748_37);
+Obj v__3515094_37 = PRIM_EQ(v__3515093_37, getBinding(co, packageID, 111).name);
+if (True == v__3515094_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514658_37, True);
+coraCall1(co, v__3514751_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514658_37, False);
+coraCall1(co, v__3514751_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514658_37, False);
+coraCall1(co, v__3514751_37, False);
 return;
 }
 }
@@ -3174,8 +3174,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514657_37 = R[1];
-if (True == v__3514657_37) {
+Obj v__3514750_37 = R[1];
+if (True == v__3514750_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
@@ -3186,20 +3186,20 @@ return;
 }
 case 1:
 {
-Obj v__3514993_37= co->res;
-Obj v__3514992_37 = R[1];
-Obj v__3514994_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3514995_37 = makeCons(co->gc, v__3514994_37, Nil);
-Obj v__3514996_37 = makeCons(co->gc, v__3514993_37, v__3514995_37);
-Obj v__3514997_37 = makeCons(co->gc, v__3514992_37, v__3514996_37);
-Obj v__3514998_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514997_37);
-coraReturn(co, v__3514998_37);
+Obj v__3515086_37= co->res;
+Obj v__3515085_37 = R[1];
+Obj v__3515087_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3515088_37 = makeCons(co->gc, v__3515087_37, Nil);
+Obj v__3515089_37 = makeCons(co->gc, v__3515086_37, v__3515088_37);
+Obj v__3515090_37 = makeCons(co->gc, v__3515085_37, v__3515089_37);
+Obj v__3515091_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515090_37);
+coraReturn(co, v__3515091_37);
 return;
 }
 case 2:
 {
-Obj v__3514992_37= co->res;
-R[1] = v__3514992_37;
+Obj v__3515085_37= co->res;
+R[1] = v__3515085_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
@@ -3211,52 +3211,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514432_37 = R[1];
-Obj v__3514433_37 = R[2];
-Obj v__3514434_37 = R[3];
-Obj v__3514435_37 = R[4];
-R[1] = v__3514433_37;
-R[2] = v__3514434_37;
-R[3] = v__3514435_37;
-R[4] = v__3514432_37;
+Obj v__3514525_37 = R[1];
+Obj v__3514526_37 = R[2];
+Obj v__3514527_37 = R[3];
+Obj v__3514528_37 = R[4];
+R[1] = v__3514526_37;
+R[2] = v__3514527_37;
+R[3] = v__3514528_37;
+R[4] = v__3514525_37;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514432_37);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514525_37);
 return;
 }
 case 1:
 {
-Obj v__3514988_37= co->res;
+Obj v__3515081_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3514988_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3515081_37);
 return;
 }
 case 2:
 {
-Obj v__3514975_37= co->res;
-Obj v__3514433_37 = R[1];
-Obj v__3514434_37 = R[2];
-Obj v__3514435_37 = R[3];
-Obj v__3514432_37 = R[4];
-if (True == v__3514975_37) {
-Obj v__3514976_37 = PRIM_CAR(v__3514432_37);
-Obj v__3514977_37 = PRIM_EQ(v__3514976_37, getBinding(co, packageID, 140).name);
-if (True == v__3514977_37) {
-Obj v__3514978_37 = makeCons(co->gc, v__3514433_37, Nil);
-Obj v__3514979_37 = makeCons(co->gc, v__3514432_37, v__3514978_37);
-Obj v__3514980_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3514979_37);
-Obj v__3514981_37 = makeCons(co->gc, v__3514435_37, Nil);
-Obj v__3514982_37 = makeCons(co->gc, v__3514981_37, Nil);
-Obj v__3514983_37 = makeCons(co->gc, v__3514434_37, v__3514982_37);
-Obj v__3514984_37 = makeCons(co->gc, v__3514980_37, v__3514983_37);
-Obj v__3514985_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514984_37);
-coraReturn(co, v__3514985_37);
-return;
-} else {
-Obj v__3514986_37 = PRIM_CAR(v__3514432_37);
-Obj v__3514987_37 = PRIM_EQ(v__3514986_37, getBinding(co, packageID, 153).name);
-if (True == v__3514987_37) {
+Obj v__3515068_37= co->res;
+Obj v__3514526_37 = R[1];
+Obj v__3514527_37 = R[2];
+Obj v__3514528_37 = R[3];
+Obj v__3514525_37 = R[4];
+if (True == v__3515068_37) {
+Obj v__3515069_37 = PRIM_CAR(v__3514525_37);
+Obj v__3515070_37 = PRIM_EQ(v__3515069_37, getBinding(co, packageID, 140).name);
+if (True == v__3515070_37) {
+Obj v__3515071_37 = makeCons(co->gc, v__3514526_37, Nil);
+Obj v__3515072_37 = makeCons(co->gc, v__3514525_37, v__3515071_37);
+Obj v__3515073_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515072_37);
+Obj v__3515074_37 = makeCons(co->gc, v__3514528_37, Nil);
+Obj v__3515075_37 = makeCons(co->gc, v__3515074_37, Nil);
+Obj v__3515076_37 = makeCons(co->gc, v__3514527_37, v__3515075_37);
+Obj v__3515077_37 = makeCons(co->gc, v__3515073_37, v__3515076_37);
+Obj v__3515078_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515077_37);
+coraReturn(co, v__3515078_37);
+return;
+} else {
+Obj v__3515079_37 = PRIM_CAR(v__3514525_37);
+Obj v__3515080_37 = PRIM_EQ(v__3515079_37, getBinding(co, packageID, 153).name);
+if (True == v__3515080_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v__3514432_37, v__3514433_37, v__3514434_37, v__3514435_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v__3514525_37, v__3514526_37, v__3514527_37, v__3514528_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3266,50 +3266,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v__3514432_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v__3514525_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3514960_37= co->res;
-Obj v__3514433_37 = R[1];
-Obj v__3514434_37 = R[2];
-Obj v__3514435_37 = R[3];
-Obj v__3514432_37 = R[4];
-if (True == v__3514960_37) {
-Obj v__3514961_37 = PRIM_EQ(v__3514432_37, v__3514433_37);
-if (True == v__3514961_37) {
-coraReturn(co, v__3514434_37);
-return;
-} else {
-Obj v__3514962_37 = makeCons(co->gc, v__3514433_37, Nil);
-Obj v__3514963_37 = makeCons(co->gc, v__3514432_37, v__3514962_37);
-Obj v__3514964_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3514963_37);
-Obj v__3514965_37 = makeCons(co->gc, v__3514435_37, Nil);
-Obj v__3514966_37 = makeCons(co->gc, v__3514965_37, Nil);
-Obj v__3514967_37 = makeCons(co->gc, v__3514434_37, v__3514966_37);
-Obj v__3514968_37 = makeCons(co->gc, v__3514964_37, v__3514967_37);
-Obj v__3514969_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514968_37);
-coraReturn(co, v__3514969_37);
-return;
-}
-} else {
-Obj v__3514970_37 = primIsSymbol(v__3514432_37);
-if (True == v__3514970_37) {
-Obj v__3514971_37 = makeCons(co->gc, v__3514434_37, Nil);
-Obj v__3514972_37 = makeCons(co->gc, v__3514433_37, v__3514971_37);
-Obj v__3514973_37 = makeCons(co->gc, v__3514432_37, v__3514972_37);
-Obj v__3514974_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514973_37);
-coraReturn(co, v__3514974_37);
+Obj v__3515053_37= co->res;
+Obj v__3514526_37 = R[1];
+Obj v__3514527_37 = R[2];
+Obj v__3514528_37 = R[3];
+Obj v__3514525_37 = R[4];
+if (True == v__3515053_37) {
+Obj v__3515054_37 = PRIM_EQ(v__3514525_37, v__3514526_37);
+if (True == v__3515054_37) {
+coraReturn(co, v__3514527_37);
 return;
 } else {
-R[1] = v__3514433_37;
-R[2] = v__3514434_37;
-R[3] = v__3514435_37;
-R[4] = v__3514432_37;
+Obj v__3515055_37 = makeCons(co->gc, v__3514526_37, Nil);
+Obj v__3515056_37 = makeCons(co->gc, v__3514525_37, v__3515055_37);
+Obj v__3515057_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515056_37);
+Obj v__3515058_37 = makeCons(co->gc, v__3514528_37, Nil);
+Obj v__3515059_37 = makeCons(co->gc, v__3515058_37, Nil);
+Obj v__3515060_37 = makeCons(co->gc, v__3514527_37, v__3515059_37);
+Obj v__3515061_37 = makeCons(co->gc, v__3515057_37, v__3515060_37);
+Obj v__3515062_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515061_37);
+coraReturn(co, v__3515062_37);
+return;
+}
+} else {
+Obj v__3515063_37 = primIsSymbol(v__3514525_37);
+if (True == v__3515063_37) {
+Obj v__3515064_37 = makeCons(co->gc, v__3514527_37, Nil);
+Obj v__3515065_37 = makeCons(co->gc, v__3514526_37, v__3515064_37);
+Obj v__3515066_37 = makeCons(co->gc, v__3514525_37, v__3515065_37);
+Obj v__3515067_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515066_37);
+coraReturn(co, v__3515067_37);
+return;
+} else {
+R[1] = v__3514526_37;
+R[2] = v__3514527_37;
+R[3] = v__3514528_37;
+R[4] = v__3514525_37;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514432_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514525_37);
 return;
 }
 }
@@ -3321,20 +3321,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514437_37 = R[1];
-R[1] = v__3514437_37;
+Obj v__3514530_37 = R[1];
+R[1] = v__3514530_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3514437_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3514530_37);
 return;
 }
 case 1:
 {
-Obj v__3514957_37= co->res;
-Obj v__3514437_37 = R[1];
-if (True == v__3514957_37) {
-Obj v__3514958_37 = primIsSymbol(v__3514437_37);
-Obj v__3514959_37 = primNot(v__3514958_37);
-if (True == v__3514959_37) {
+Obj v__3515050_37= co->res;
+Obj v__3514530_37 = R[1];
+if (True == v__3515050_37) {
+Obj v__3515051_37 = primIsSymbol(v__3514530_37);
+Obj v__3515052_37 = primNot(v__3515051_37);
+if (True == v__3515052_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3353,60 +3353,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514424_37 = R[1];
-Obj v__3514425_37 = R[2];
-Obj v__3514426_37 = R[3];
-Obj v__3514427_37 = R[4];
-R[1] = v__3514424_37;
-R[2] = v__3514426_37;
-R[3] = v__3514427_37;
-R[4] = v__3514425_37;
+Obj v__3514517_37 = R[1];
+Obj v__3514518_37 = R[2];
+Obj v__3514519_37 = R[3];
+Obj v__3514520_37 = R[4];
+R[1] = v__3514517_37;
+R[2] = v__3514519_37;
+R[3] = v__3514520_37;
+R[4] = v__3514518_37;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514424_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514517_37);
 return;
 }
 case 1:
 {
-Obj v__3514936_37= co->res;
-Obj v__3514648_37 = R[1];
-Obj v__3514426_37 = R[2];
-Obj v__3514427_37 = R[3];
-Obj v__3514425_37 = R[4];
-Obj v__3514649_37 = v__3514936_37;
-Obj v__3514652_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514648_37, v__3514649_37, v__3514425_37, v__3514426_37, v__3514427_37);
-Obj v__3514953_37 = PRIM_ISCONS(v__3514425_37);
-if (True == v__3514953_37) {
-Obj v__3514954_37 = PRIM_CAR(v__3514425_37);
-Obj v__3514955_37 = PRIM_EQ(v__3514954_37, getBinding(co, packageID, 153).name);
-if (True == v__3514955_37) {
+Obj v__3515029_37= co->res;
+Obj v__3514741_37 = R[1];
+Obj v__3514519_37 = R[2];
+Obj v__3514520_37 = R[3];
+Obj v__3514518_37 = R[4];
+Obj v__3514742_37 = v__3515029_37;
+Obj v__3514745_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514741_37, v__3514742_37, v__3514518_37, v__3514519_37, v__3514520_37);
+Obj v__3515046_37 = PRIM_ISCONS(v__3514518_37);
+if (True == v__3515046_37) {
+Obj v__3515047_37 = PRIM_CAR(v__3514518_37);
+Obj v__3515048_37 = PRIM_EQ(v__3515047_37, getBinding(co, packageID, 153).name);
+if (True == v__3515048_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514652_37, True);
+coraCall1(co, v__3514745_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514652_37, False);
+coraCall1(co, v__3514745_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514652_37, False);
+coraCall1(co, v__3514745_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3514935_37= co->res;
-Obj v__3514424_37 = R[1];
-Obj v__3514426_37 = R[2];
-Obj v__3514427_37 = R[3];
-Obj v__3514425_37 = R[4];
-Obj v__3514648_37 = v__3514935_37;
-R[1] = v__3514648_37;
-R[2] = v__3514426_37;
-R[3] = v__3514427_37;
-R[4] = v__3514425_37;
+Obj v__3515028_37= co->res;
+Obj v__3514517_37 = R[1];
+Obj v__3514519_37 = R[2];
+Obj v__3514520_37 = R[3];
+Obj v__3514518_37 = R[4];
+Obj v__3514741_37 = v__3515028_37;
+R[1] = v__3514741_37;
+R[2] = v__3514519_37;
+R[3] = v__3514520_37;
+R[4] = v__3514518_37;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514424_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514517_37);
 return;
 }
 }
@@ -3416,72 +3416,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514651_37 = R[1];
-if (True == v__3514651_37) {
+Obj v__3514744_37 = R[1];
+if (True == v__3514744_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3514940_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3514941_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3514940_37);
-Obj v__3514942_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3514943_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3514942_37);
-Obj v__3514944_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3514945_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3514944_37);
-R[1] = v__3514943_37;
-R[2] = v__3514941_37;
+Obj v__3515033_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3515034_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515033_37);
+Obj v__3515035_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3515036_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515035_37);
+Obj v__3515037_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3515038_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515037_37);
+R[1] = v__3515036_37;
+R[2] = v__3515034_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514945_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3515038_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3514939_37= co->res;
-Obj v__3514653_37 = R[1];
+Obj v__3515032_37= co->res;
+Obj v__3514746_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514653_37, v__3514939_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514746_37, v__3515032_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3514938_37= co->res;
-Obj v__3514653_37 = R[1];
-Obj v__3514654_37 = v__3514938_37;
-R[1] = v__3514653_37;
+Obj v__3515031_37= co->res;
+Obj v__3514746_37 = R[1];
+Obj v__3514747_37 = v__3515031_37;
+R[1] = v__3514746_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514654_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514747_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3514937_37= co->res;
-Obj v__3514653_37 = v__3514937_37;
-R[1] = v__3514653_37;
+Obj v__3515030_37= co->res;
+Obj v__3514746_37 = v__3515030_37;
+R[1] = v__3514746_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3514947_37= co->res;
-Obj v__3514941_37 = R[1];
-Obj v__3514948_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3514949_37 = makeCons(co->gc, v__3514948_37, Nil);
-Obj v__3514950_37 = makeCons(co->gc, v__3514947_37, v__3514949_37);
-Obj v__3514951_37 = makeCons(co->gc, v__3514941_37, v__3514950_37);
-Obj v__3514952_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514951_37);
-coraReturn(co, v__3514952_37);
+Obj v__3515040_37= co->res;
+Obj v__3515034_37 = R[1];
+Obj v__3515041_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3515042_37 = makeCons(co->gc, v__3515041_37, Nil);
+Obj v__3515043_37 = makeCons(co->gc, v__3515040_37, v__3515042_37);
+Obj v__3515044_37 = makeCons(co->gc, v__3515034_37, v__3515043_37);
+Obj v__3515045_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515044_37);
+coraReturn(co, v__3515045_37);
 return;
 }
 case 5:
 {
-Obj v__3514946_37= co->res;
-Obj v__3514943_37 = R[1];
-Obj v__3514941_37 = R[2];
-R[1] = v__3514941_37;
+Obj v__3515039_37= co->res;
+Obj v__3515036_37 = R[1];
+Obj v__3515034_37 = R[2];
+R[1] = v__3515034_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514943_37, v__3514946_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3515036_37, v__3515039_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3491,10 +3491,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514423_37 = R[1];
-Obj v__3514933_37 = PRIM_CDR(v__3514423_37);
+Obj v__3514516_37 = R[1];
+Obj v__3515026_37 = PRIM_CDR(v__3514516_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3514933_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3515026_37);
 return;
 }
 }
@@ -3504,37 +3504,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514422_37 = R[1];
-Obj v__3514923_37 = PRIM_CDR(v__3514422_37);
-R[1] = v__3514422_37;
+Obj v__3514515_37 = R[1];
+Obj v__3515016_37 = PRIM_CDR(v__3514515_37);
+R[1] = v__3514515_37;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514923_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515016_37);
 return;
 }
 case 1:
 {
-Obj v__3514928_37= co->res;
-Obj v__3514926_37 = R[1];
-Obj v__3514929_37 = makeCons(co->gc, v__3514928_37, Nil);
-Obj v__3514930_37 = makeCons(co->gc, v__3514926_37, v__3514929_37);
-Obj v__3514931_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514930_37);
-coraReturn(co, v__3514931_37);
+Obj v__3515021_37= co->res;
+Obj v__3515019_37 = R[1];
+Obj v__3515022_37 = makeCons(co->gc, v__3515021_37, Nil);
+Obj v__3515023_37 = makeCons(co->gc, v__3515019_37, v__3515022_37);
+Obj v__3515024_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515023_37);
+coraReturn(co, v__3515024_37);
 return;
 }
 case 2:
 {
-Obj v__3514924_37= co->res;
-Obj v__3514422_37 = R[1];
-if (True == v__3514924_37) {
-Obj v__3514925_37 = PRIM_CAR(v__3514422_37);
-coraReturn(co, v__3514925_37);
+Obj v__3515017_37= co->res;
+Obj v__3514515_37 = R[1];
+if (True == v__3515017_37) {
+Obj v__3515018_37 = PRIM_CAR(v__3514515_37);
+coraReturn(co, v__3515018_37);
 return;
 } else {
-Obj v__3514926_37 = PRIM_CAR(v__3514422_37);
-Obj v__3514927_37 = PRIM_CDR(v__3514422_37);
-R[1] = v__3514926_37;
+Obj v__3515019_37 = PRIM_CAR(v__3514515_37);
+Obj v__3515020_37 = PRIM_CDR(v__3514515_37);
+R[1] = v__3515019_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3514927_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3515020_37);
 return;
 }
 }
@@ -3545,14 +3545,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514421_37 = R[1];
-Obj v__3514920_37 = PRIM_EQ(v__3514421_37, True);
-if (True == v__3514920_37) {
+Obj v__3514514_37 = R[1];
+Obj v__3515013_37 = PRIM_EQ(v__3514514_37, True);
+if (True == v__3515013_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514921_37 = PRIM_EQ(v__3514421_37, False);
-if (True == v__3514921_37) {
+Obj v__3515014_37 = PRIM_EQ(v__3514514_37, False);
+if (True == v__3515014_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3568,10 +3568,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514420_37 = R[1];
-Obj v__3514918_37 = PRIM_CDR(v__3514420_37);
+Obj v__3514513_37 = R[1];
+Obj v__3515011_37 = PRIM_CDR(v__3514513_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514918_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3515011_37);
 return;
 }
 }
@@ -3581,42 +3581,42 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514418_37 = R[1];
-Obj v__3514906_37 = PRIM_EQ(Nil, v__3514418_37);
-if (True == v__3514906_37) {
+Obj v__3514511_37 = R[1];
+Obj v__3514999_37 = PRIM_EQ(Nil, v__3514511_37);
+if (True == v__3514999_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514907_37 = PRIM_CAR(v__3514418_37);
-Obj v__3514908_37 = PRIM_EQ(v__3514907_37, False);
-if (True == v__3514908_37) {
+Obj v__3515000_37 = PRIM_CAR(v__3514511_37);
+Obj v__3515001_37 = PRIM_EQ(v__3515000_37, False);
+if (True == v__3515001_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3514909_37 = PRIM_CDR(v__3514418_37);
-R[1] = v__3514418_37;
+Obj v__3515002_37 = PRIM_CDR(v__3514511_37);
+R[1] = v__3514511_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514909_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3515002_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3514910_37= co->res;
-Obj v__3514418_37 = R[1];
-Obj v__3514647_37 = v__3514910_37;
-Obj v__3514911_37 = PRIM_EQ(v__3514647_37, False);
-if (True == v__3514911_37) {
+Obj v__3515003_37= co->res;
+Obj v__3514511_37 = R[1];
+Obj v__3514740_37 = v__3515003_37;
+Obj v__3515004_37 = PRIM_EQ(v__3514740_37, False);
+if (True == v__3515004_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3514912_37 = PRIM_CAR(v__3514418_37);
-Obj v__3514913_37 = makeCons(co->gc, False, Nil);
-Obj v__3514914_37 = makeCons(co->gc, v__3514647_37, v__3514913_37);
-Obj v__3514915_37 = makeCons(co->gc, v__3514912_37, v__3514914_37);
-Obj v__3514916_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514915_37);
-coraReturn(co, v__3514916_37);
+Obj v__3515005_37 = PRIM_CAR(v__3514511_37);
+Obj v__3515006_37 = makeCons(co->gc, False, Nil);
+Obj v__3515007_37 = makeCons(co->gc, v__3514740_37, v__3515006_37);
+Obj v__3515008_37 = makeCons(co->gc, v__3515005_37, v__3515007_37);
+Obj v__3515009_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515008_37);
+coraReturn(co, v__3515009_37);
 return;
 }
 }
@@ -3627,10 +3627,10 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514417_37 = R[1];
-Obj v__3514904_37 = PRIM_CDR(v__3514417_37);
+Obj v__3514510_37 = R[1];
+Obj v__3514997_37 = PRIM_CDR(v__3514510_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514904_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514997_37);
 return;
 }
 }
@@ -3640,42 +3640,42 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514415_37 = R[1];
-Obj v__3514892_37 = PRIM_EQ(v__3514415_37, Nil);
-if (True == v__3514892_37) {
+Obj v__3514508_37 = R[1];
+Obj v__3514985_37 = PRIM_EQ(v__3514508_37, Nil);
+if (True == v__3514985_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3514893_37 = PRIM_CAR(v__3514415_37);
-Obj v__3514894_37 = PRIM_EQ(v__3514893_37, True);
-if (True == v__3514894_37) {
+Obj v__3514986_37 = PRIM_CAR(v__3514508_37);
+Obj v__3514987_37 = PRIM_EQ(v__3514986_37, True);
+if (True == v__3514987_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514895_37 = PRIM_CDR(v__3514415_37);
-R[1] = v__3514415_37;
+Obj v__3514988_37 = PRIM_CDR(v__3514508_37);
+R[1] = v__3514508_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514895_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514988_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3514896_37= co->res;
-Obj v__3514415_37 = R[1];
-Obj v__3514646_37 = v__3514896_37;
-Obj v__3514897_37 = PRIM_EQ(v__3514646_37, True);
-if (True == v__3514897_37) {
+Obj v__3514989_37= co->res;
+Obj v__3514508_37 = R[1];
+Obj v__3514739_37 = v__3514989_37;
+Obj v__3514990_37 = PRIM_EQ(v__3514739_37, True);
+if (True == v__3514990_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514898_37 = PRIM_CAR(v__3514415_37);
-Obj v__3514899_37 = makeCons(co->gc, v__3514646_37, Nil);
-Obj v__3514900_37 = makeCons(co->gc, True, v__3514899_37);
-Obj v__3514901_37 = makeCons(co->gc, v__3514898_37, v__3514900_37);
-Obj v__3514902_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514901_37);
-coraReturn(co, v__3514902_37);
+Obj v__3514991_37 = PRIM_CAR(v__3514508_37);
+Obj v__3514992_37 = makeCons(co->gc, v__3514739_37, Nil);
+Obj v__3514993_37 = makeCons(co->gc, True, v__3514992_37);
+Obj v__3514994_37 = makeCons(co->gc, v__3514991_37, v__3514993_37);
+Obj v__3514995_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514994_37);
+coraReturn(co, v__3514995_37);
 return;
 }
 }
@@ -3686,55 +3686,55 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514413_37 = R[1];
-Obj v__3514878_37 = PRIM_CDR(v__3514413_37);
-Obj v__3514879_37 = PRIM_EQ(Nil, v__3514878_37);
-if (True == v__3514879_37) {
-Obj v__3514880_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3514881_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514880_37);
-coraReturn(co, v__3514881_37);
+Obj v__3514506_37 = R[1];
+Obj v__3514971_37 = PRIM_CDR(v__3514506_37);
+Obj v__3514972_37 = PRIM_EQ(Nil, v__3514971_37);
+if (True == v__3514972_37) {
+Obj v__3514973_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3514974_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514973_37);
+coraReturn(co, v__3514974_37);
 return;
 } else {
-R[1] = v__3514413_37;
+R[1] = v__3514506_37;
 saveCont(co, clofun27, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514413_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514506_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3514885_37= co->res;
-Obj v__3514884_37 = R[1];
-Obj v__3514883_37 = R[2];
-Obj v__3514886_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514885_37);
-Obj v__3514887_37 = makeCons(co->gc, v__3514886_37, Nil);
-Obj v__3514888_37 = makeCons(co->gc, v__3514884_37, v__3514887_37);
-Obj v__3514889_37 = makeCons(co->gc, v__3514883_37, v__3514888_37);
-Obj v__3514890_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514889_37);
-coraReturn(co, v__3514890_37);
+Obj v__3514978_37= co->res;
+Obj v__3514977_37 = R[1];
+Obj v__3514976_37 = R[2];
+Obj v__3514979_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514978_37);
+Obj v__3514980_37 = makeCons(co->gc, v__3514979_37, Nil);
+Obj v__3514981_37 = makeCons(co->gc, v__3514977_37, v__3514980_37);
+Obj v__3514982_37 = makeCons(co->gc, v__3514976_37, v__3514981_37);
+Obj v__3514983_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514982_37);
+coraReturn(co, v__3514983_37);
 return;
 }
 case 2:
 {
-Obj v__3514884_37= co->res;
-Obj v__3514413_37 = R[1];
-Obj v__3514883_37 = R[2];
-R[1] = v__3514884_37;
-R[2] = v__3514883_37;
+Obj v__3514977_37= co->res;
+Obj v__3514506_37 = R[1];
+Obj v__3514976_37 = R[2];
+R[1] = v__3514977_37;
+R[2] = v__3514976_37;
 saveCont(co, clofun27, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514413_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514506_37);
 return;
 }
 case 3:
 {
-Obj v__3514882_37= co->res;
-Obj v__3514413_37 = R[1];
-Obj v__3514645_37 = v__3514882_37;
-Obj v__3514883_37 = PRIM_CAR(v__3514645_37);
-R[1] = v__3514413_37;
-R[2] = v__3514883_37;
+Obj v__3514975_37= co->res;
+Obj v__3514506_37 = R[1];
+Obj v__3514738_37 = v__3514975_37;
+Obj v__3514976_37 = PRIM_CAR(v__3514738_37);
+R[1] = v__3514506_37;
+R[2] = v__3514976_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514645_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514738_37);
 return;
 }
 }
@@ -3744,10 +3744,10 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514412_37 = R[1];
-Obj v__3514876_37 = PRIM_CDR(v__3514412_37);
+Obj v__3514505_37 = R[1];
+Obj v__3514969_37 = PRIM_CDR(v__3514505_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514876_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514969_37);
 return;
 }
 }
@@ -3757,61 +3757,61 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514411_37 = R[1];
-Obj v__3514864_37 = PRIM_CDR(v__3514411_37);
-R[1] = v__3514411_37;
+Obj v__3514504_37 = R[1];
+Obj v__3514957_37 = PRIM_CDR(v__3514504_37);
+R[1] = v__3514504_37;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514864_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514957_37);
 return;
 }
 case 1:
 {
-Obj v__3514870_37= co->res;
-Obj v__3514868_37 = R[1];
-Obj v__3514867_37 = R[2];
-Obj v__3514871_37 = makeCons(co->gc, v__3514870_37, Nil);
-Obj v__3514872_37 = makeCons(co->gc, v__3514868_37, v__3514871_37);
-Obj v__3514873_37 = makeCons(co->gc, v__3514867_37, v__3514872_37);
-Obj v__3514874_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514873_37);
-coraReturn(co, v__3514874_37);
+Obj v__3514963_37= co->res;
+Obj v__3514961_37 = R[1];
+Obj v__3514960_37 = R[2];
+Obj v__3514964_37 = makeCons(co->gc, v__3514963_37, Nil);
+Obj v__3514965_37 = makeCons(co->gc, v__3514961_37, v__3514964_37);
+Obj v__3514966_37 = makeCons(co->gc, v__3514960_37, v__3514965_37);
+Obj v__3514967_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514966_37);
+coraReturn(co, v__3514967_37);
 return;
 }
 case 2:
 {
-Obj v__3514869_37= co->res;
-Obj v__3514868_37 = R[1];
-Obj v__3514867_37 = R[2];
-R[1] = v__3514868_37;
-R[2] = v__3514867_37;
+Obj v__3514962_37= co->res;
+Obj v__3514961_37 = R[1];
+Obj v__3514960_37 = R[2];
+R[1] = v__3514961_37;
+R[2] = v__3514960_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514869_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514962_37);
 return;
 }
 case 3:
 {
-Obj v__3514868_37= co->res;
-Obj v__3514411_37 = R[1];
-Obj v__3514867_37 = R[2];
-R[1] = v__3514868_37;
-R[2] = v__3514867_37;
+Obj v__3514961_37= co->res;
+Obj v__3514504_37 = R[1];
+Obj v__3514960_37 = R[2];
+R[1] = v__3514961_37;
+R[2] = v__3514960_37;
 saveCont(co, clofun25, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514411_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514504_37);
 return;
 }
 case 4:
 {
-Obj v__3514865_37= co->res;
-Obj v__3514411_37 = R[1];
-if (True == v__3514865_37) {
-Obj v__3514866_37 = PRIM_CAR(v__3514411_37);
-coraReturn(co, v__3514866_37);
+Obj v__3514958_37= co->res;
+Obj v__3514504_37 = R[1];
+if (True == v__3514958_37) {
+Obj v__3514959_37 = PRIM_CAR(v__3514504_37);
+coraReturn(co, v__3514959_37);
 return;
 } else {
-Obj v__3514867_37 = PRIM_CAR(v__3514411_37);
-R[1] = v__3514411_37;
-R[2] = v__3514867_37;
+Obj v__3514960_37 = PRIM_CAR(v__3514504_37);
+R[1] = v__3514504_37;
+R[2] = v__3514960_37;
 saveCont(co, clofun25, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514411_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514504_37);
 return;
 }
 }
@@ -3822,10 +3822,10 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514410_37 = R[1];
-Obj v__3514861_37 = PRIM_ISCONS(v__3514410_37);
-Obj v__3514862_37 = primNot(v__3514861_37);
-coraReturn(co, v__3514862_37);
+Obj v__3514503_37 = R[1];
+Obj v__3514954_37 = PRIM_ISCONS(v__3514503_37);
+Obj v__3514955_37 = primNot(v__3514954_37);
+coraReturn(co, v__3514955_37);
 return;
 }
 }
@@ -3835,19 +3835,19 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514408_37 = R[1];
-Obj v__3514409_37 = R[2];
-Obj v__3514856_37 = PRIM_ISCONS(v__3514409_37);
-if (True == v__3514856_37) {
-Obj v__3514857_37 = PRIM_CAR(v__3514409_37);
-Obj v__3514858_37 = PRIM_EQ(v__3514857_37, v__3514408_37);
-if (True == v__3514858_37) {
+Obj v__3514501_37 = R[1];
+Obj v__3514502_37 = R[2];
+Obj v__3514949_37 = PRIM_ISCONS(v__3514502_37);
+if (True == v__3514949_37) {
+Obj v__3514950_37 = PRIM_CAR(v__3514502_37);
+Obj v__3514951_37 = PRIM_EQ(v__3514950_37, v__3514501_37);
+if (True == v__3514951_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514859_37 = PRIM_CDR(v__3514409_37);
+Obj v__3514952_37 = PRIM_CDR(v__3514502_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514408_37, v__3514859_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514501_37, v__3514952_37);
 return;
 }
 } else {
@@ -3862,45 +3862,45 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514407_37 = R[1];
-R[1] = v__3514407_37;
+Obj v__3514500_37 = R[1];
+R[1] = v__3514500_37;
 saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514407_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514500_37);
 return;
 }
 case 1:
 {
-Obj v__3514848_37= co->res;
-Obj v__3514847_37 = R[1];
-Obj v__3514846_37 = R[2];
-Obj v__3514849_37 = makeCons(co->gc, v__3514848_37, Nil);
-Obj v__3514850_37 = makeCons(co->gc, v__3514847_37, v__3514849_37);
-Obj v__3514851_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514850_37);
-Obj v__3514852_37 = makeCons(co->gc, v__3514851_37, Nil);
-Obj v__3514853_37 = makeCons(co->gc, v__3514846_37, v__3514852_37);
-Obj v__3514854_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3514853_37);
-coraReturn(co, v__3514854_37);
+Obj v__3514941_37= co->res;
+Obj v__3514940_37 = R[1];
+Obj v__3514939_37 = R[2];
+Obj v__3514942_37 = makeCons(co->gc, v__3514941_37, Nil);
+Obj v__3514943_37 = makeCons(co->gc, v__3514940_37, v__3514942_37);
+Obj v__3514944_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514943_37);
+Obj v__3514945_37 = makeCons(co->gc, v__3514944_37, Nil);
+Obj v__3514946_37 = makeCons(co->gc, v__3514939_37, v__3514945_37);
+Obj v__3514947_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3514946_37);
+coraReturn(co, v__3514947_37);
 return;
 }
 case 2:
 {
-Obj v__3514847_37= co->res;
-Obj v__3514407_37 = R[1];
-Obj v__3514846_37 = R[2];
-R[1] = v__3514847_37;
-R[2] = v__3514846_37;
+Obj v__3514940_37= co->res;
+Obj v__3514500_37 = R[1];
+Obj v__3514939_37 = R[2];
+R[1] = v__3514940_37;
+R[2] = v__3514939_37;
 saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514407_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514500_37);
 return;
 }
 case 3:
 {
-Obj v__3514846_37= co->res;
-Obj v__3514407_37 = R[1];
-R[1] = v__3514407_37;
-R[2] = v__3514846_37;
+Obj v__3514939_37= co->res;
+Obj v__3514500_37 = R[1];
+R[1] = v__3514500_37;
+R[2] = v__3514939_37;
 saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514407_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514500_37);
 return;
 }
 }
@@ -3910,10 +3910,10 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514406_37 = R[1];
-Obj v__3514844_37 = PRIM_CDR(v__3514406_37);
+Obj v__3514499_37 = R[1];
+Obj v__3514937_37 = PRIM_CDR(v__3514499_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514844_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514937_37);
 return;
 }
 }
@@ -3923,46 +3923,46 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514405_37 = R[1];
-R[1] = v__3514405_37;
+Obj v__3514498_37 = R[1];
+R[1] = v__3514498_37;
 saveCont(co, clofun20, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514405_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514498_37);
 return;
 }
 case 1:
 {
-Obj v__3514836_37= co->res;
-Obj v__3514835_37 = R[1];
-Obj v__3514834_37 = R[2];
-Obj v__3514837_37 = makeCons(co->gc, v__3514835_37, v__3514836_37);
-Obj v__3514838_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514837_37);
-Obj v__3514839_37 = makeCons(co->gc, v__3514838_37, Nil);
-Obj v__3514840_37 = makeCons(co->gc, v__3514834_37, v__3514839_37);
-Obj v__3514841_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3514840_37);
-coraReturn(co, v__3514841_37);
+Obj v__3514929_37= co->res;
+Obj v__3514928_37 = R[1];
+Obj v__3514927_37 = R[2];
+Obj v__3514930_37 = makeCons(co->gc, v__3514928_37, v__3514929_37);
+Obj v__3514931_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514930_37);
+Obj v__3514932_37 = makeCons(co->gc, v__3514931_37, Nil);
+Obj v__3514933_37 = makeCons(co->gc, v__3514927_37, v__3514932_37);
+Obj v__3514934_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3514933_37);
+coraReturn(co, v__3514934_37);
 return;
 }
 case 2:
 {
-Obj v__3514835_37= co->res;
-Obj v__3514405_37 = R[1];
-Obj v__3514834_37 = R[2];
-R[1] = v__3514835_37;
-R[2] = v__3514834_37;
+Obj v__3514928_37= co->res;
+Obj v__3514498_37 = R[1];
+Obj v__3514927_37 = R[2];
+R[1] = v__3514928_37;
+R[2] = v__3514927_37;
 saveCont(co, clofun20, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514405_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514498_37);
 return;
 }
 case 3:
 {
-Obj v__3514832_37= co->res;
-Obj v__3514405_37 = R[1];
-Obj v__3514833_37 = makeCons(co->gc, v__3514832_37, Nil);
-Obj v__3514834_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514833_37);
-R[1] = v__3514405_37;
-R[2] = v__3514834_37;
+Obj v__3514925_37= co->res;
+Obj v__3514498_37 = R[1];
+Obj v__3514926_37 = makeCons(co->gc, v__3514925_37, Nil);
+Obj v__3514927_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514926_37);
+R[1] = v__3514498_37;
+R[2] = v__3514927_37;
 saveCont(co, clofun20, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514405_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514498_37);
 return;
 }
 }
@@ -3972,76 +3972,76 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514402_37 = R[1];
-Obj v__3514814_37 = PRIM_ISCONS(v__3514402_37);
-if (True == v__3514814_37) {
-Obj v__3514815_37 = PRIM_CAR(v__3514402_37);
-Obj v__3514816_37 = PRIM_EQ(v__3514815_37, globalRef(co, getBinding(co, packageID, 146)));
-if (True == v__3514816_37) {
-Obj v__3514817_37 = PRIM_CDR(v__3514402_37);
-coraReturn(co, v__3514817_37);
-return;
-} else {
-Obj v__3514818_37 = PRIM_CAR(v__3514402_37);
-Obj v__3514819_37 = PRIM_EQ(v__3514818_37, getBinding(co, packageID, 141).name);
-if (True == v__3514819_37) {
-R[1] = v__3514402_37;
+Obj v__3514495_37 = R[1];
+Obj v__3514907_37 = PRIM_ISCONS(v__3514495_37);
+if (True == v__3514907_37) {
+Obj v__3514908_37 = PRIM_CAR(v__3514495_37);
+Obj v__3514909_37 = PRIM_EQ(v__3514908_37, globalRef(co, getBinding(co, packageID, 146)));
+if (True == v__3514909_37) {
+Obj v__3514910_37 = PRIM_CDR(v__3514495_37);
+coraReturn(co, v__3514910_37);
+return;
+} else {
+Obj v__3514911_37 = PRIM_CAR(v__3514495_37);
+Obj v__3514912_37 = PRIM_EQ(v__3514911_37, getBinding(co, packageID, 141).name);
+if (True == v__3514912_37) {
+R[1] = v__3514495_37;
 saveCont(co, clofun19, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514402_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514495_37);
 return;
 } else {
-Obj v__3514826_37 = PRIM_CAR(v__3514402_37);
-Obj v__3514827_37 = PRIM_EQ(v__3514826_37, getBinding(co, packageID, 140).name);
-if (True == v__3514827_37) {
-coraReturn(co, v__3514402_37);
+Obj v__3514919_37 = PRIM_CAR(v__3514495_37);
+Obj v__3514920_37 = PRIM_EQ(v__3514919_37, getBinding(co, packageID, 140).name);
+if (True == v__3514920_37) {
+coraReturn(co, v__3514495_37);
 return;
 } else {
-R[1] = v__3514402_37;
+R[1] = v__3514495_37;
 saveCont(co, clofun19, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v__3514402_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 143)), v__3514495_37);
 return;
 }
 }
 }
 } else {
-coraReturn(co, v__3514402_37);
+coraReturn(co, v__3514495_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3514822_37= co->res;
-Obj v__3514820_37 = R[1];
-Obj v__3514823_37 = makeCons(co->gc, v__3514822_37, Nil);
-Obj v__3514824_37 = makeCons(co->gc, v__3514820_37, v__3514823_37);
-Obj v__3514825_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514824_37);
-coraReturn(co, v__3514825_37);
+Obj v__3514915_37= co->res;
+Obj v__3514913_37 = R[1];
+Obj v__3514916_37 = makeCons(co->gc, v__3514915_37, Nil);
+Obj v__3514917_37 = makeCons(co->gc, v__3514913_37, v__3514916_37);
+Obj v__3514918_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514917_37);
+coraReturn(co, v__3514918_37);
 return;
 }
 case 2:
 {
-Obj v__3514821_37= co->res;
-Obj v__3514820_37 = R[1];
-R[1] = v__3514820_37;
+Obj v__3514914_37= co->res;
+Obj v__3514913_37 = R[1];
+R[1] = v__3514913_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514821_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514914_37);
 return;
 }
 case 3:
 {
-Obj v__3514820_37= co->res;
-Obj v__3514402_37 = R[1];
-R[1] = v__3514820_37;
+Obj v__3514913_37= co->res;
+Obj v__3514495_37 = R[1];
+R[1] = v__3514913_37;
 saveCont(co, clofun19, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514402_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514495_37);
 return;
 }
 case 4:
 {
-Obj v__3514829_37= co->res;
-Obj v__3514402_37 = R[1];
+Obj v__3514922_37= co->res;
+Obj v__3514495_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514402_37), v__3514829_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514495_37), v__3514922_37);
 return;
 }
 }
@@ -4051,15 +4051,15 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514404_37 = R[1];
-Obj v__3514828_37 = PRIM_EQ(v__3514404_37, closureRef(R[0], 0));
-if (True == v__3514828_37) {
+Obj v__3514497_37 = R[1];
+Obj v__3514921_37 = PRIM_EQ(v__3514497_37, closureRef(R[0], 0));
+if (True == v__3514921_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v__3514404_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v__3514497_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514404_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514497_37);
 return;
 }
 }
@@ -4070,9 +4070,9 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514401_37 = R[1];
+Obj v__3514494_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v__3514401_37, globalRef(co, getBinding(co, packageID, 147)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), v__3514494_37, globalRef(co, getBinding(co, packageID, 147)));
 return;
 }
 }
@@ -4082,16 +4082,16 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514397_37 = R[1];
-Obj v__3514398_37 = R[2];
-Obj v__3514804_37 = PRIM_EQ(Nil, v__3514398_37);
-if (True == v__3514804_37) {
-coraReturn(co, v__3514397_37);
+Obj v__3514490_37 = R[1];
+Obj v__3514491_37 = R[2];
+Obj v__3514897_37 = PRIM_EQ(Nil, v__3514491_37);
+if (True == v__3514897_37) {
+coraReturn(co, v__3514490_37);
 return;
 } else {
-Obj v__3514811_37 = PRIM_CAR(v__3514398_37);
+Obj v__3514904_37 = PRIM_CAR(v__3514491_37);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514398_37, v__3514397_37), v__3514811_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514491_37, v__3514490_37), v__3514904_37);
 return;
 }
 }
@@ -4102,25 +4102,25 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514400_37 = R[1];
-Obj v__3514644_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514400_37, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3514807_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3514807_37) {
-Obj v__3514808_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3514809_37 = PRIM_CAR(v__3514400_37);
-Obj v__3514810_37 = PRIM_EQ(v__3514808_37, v__3514809_37);
-if (True == v__3514810_37) {
+Obj v__3514493_37 = R[1];
+Obj v__3514737_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514493_37, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3514900_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3514900_37) {
+Obj v__3514901_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514902_37 = PRIM_CAR(v__3514493_37);
+Obj v__3514903_37 = PRIM_EQ(v__3514901_37, v__3514902_37);
+if (True == v__3514903_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514644_37, True);
+coraCall1(co, v__3514737_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514644_37, False);
+coraCall1(co, v__3514737_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514644_37, False);
+coraCall1(co, v__3514737_37, False);
 return;
 }
 }
@@ -4131,16 +4131,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514643_37 = R[1];
-if (True == v__3514643_37) {
-Obj v__3514805_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514736_37 = R[1];
+if (True == v__3514736_37) {
+Obj v__3514898_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3514805_37, closureRef(R[0], 1));
+coraCall1(co, v__3514898_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514806_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3514899_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3514806_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3514899_37);
 return;
 }
 }
@@ -4151,12 +4151,12 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514395_37 = R[1];
-Obj v__3514396_37 = R[2];
-Obj v__3514800_37 = makeCons(co->gc, v__3514395_37, v__3514396_37);
-Obj v__3514801_37 = makeCons(co->gc, v__3514800_37, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3514802_37 = primSet(co, getBinding(co, packageID, 147).name, v__3514801_37);
-coraReturn(co, v__3514802_37);
+Obj v__3514488_37 = R[1];
+Obj v__3514489_37 = R[2];
+Obj v__3514893_37 = makeCons(co->gc, v__3514488_37, v__3514489_37);
+Obj v__3514894_37 = makeCons(co->gc, v__3514893_37, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514895_37 = primSet(co, getBinding(co, packageID, 147).name, v__3514894_37);
+coraReturn(co, v__3514895_37);
 return;
 }
 }
@@ -4166,10 +4166,10 @@ static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514393_37 = R[1];
-Obj v__3514394_37 = R[2];
+Obj v__3514486_37 = R[1];
+Obj v__3514487_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v__3514393_37, v__3514394_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), Nil, v__3514486_37, v__3514487_37);
 return;
 }
 }
@@ -4179,34 +4179,34 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514390_37 = R[1];
-Obj v__3514391_37 = R[2];
-Obj v__3514392_37 = R[3];
-Obj v__3514790_37 = PRIM_ISCONS(v__3514392_37);
-if (True == v__3514790_37) {
-Obj v__3514791_37 = PRIM_CAR(v__3514392_37);
-R[1] = v__3514390_37;
-R[2] = v__3514392_37;
-R[3] = v__3514391_37;
+Obj v__3514483_37 = R[1];
+Obj v__3514484_37 = R[2];
+Obj v__3514485_37 = R[3];
+Obj v__3514883_37 = PRIM_ISCONS(v__3514485_37);
+if (True == v__3514883_37) {
+Obj v__3514884_37 = PRIM_CAR(v__3514485_37);
+R[1] = v__3514483_37;
+R[2] = v__3514485_37;
+R[3] = v__3514484_37;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v__3514391_37, v__3514791_37);
+coraCall1(co, v__3514484_37, v__3514884_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514390_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514483_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3514792_37= co->res;
-Obj v__3514390_37 = R[1];
-Obj v__3514392_37 = R[2];
-Obj v__3514391_37 = R[3];
-Obj v__3514793_37 = makeCons(co->gc, v__3514792_37, v__3514390_37);
-Obj v__3514794_37 = PRIM_CDR(v__3514392_37);
+Obj v__3514885_37= co->res;
+Obj v__3514483_37 = R[1];
+Obj v__3514485_37 = R[2];
+Obj v__3514484_37 = R[3];
+Obj v__3514886_37 = makeCons(co->gc, v__3514885_37, v__3514483_37);
+Obj v__3514887_37 = PRIM_CDR(v__3514485_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3514793_37, v__3514391_37, v__3514794_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3514886_37, v__3514484_37, v__3514887_37);
 return;
 }
 }
@@ -4216,18 +4216,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514388_37 = R[1];
-Obj v__3514389_37 = R[2];
-Obj v__3514783_37 = PRIM_ISCONS(v__3514389_37);
-if (True == v__3514783_37) {
-Obj v__3514784_37 = PRIM_CAR(v__3514389_37);
-Obj v__3514785_37 = makeCons(co->gc, v__3514784_37, v__3514388_37);
-Obj v__3514786_37 = PRIM_CDR(v__3514389_37);
+Obj v__3514481_37 = R[1];
+Obj v__3514482_37 = R[2];
+Obj v__3514876_37 = PRIM_ISCONS(v__3514482_37);
+if (True == v__3514876_37) {
+Obj v__3514877_37 = PRIM_CAR(v__3514482_37);
+Obj v__3514878_37 = makeCons(co->gc, v__3514877_37, v__3514481_37);
+Obj v__3514879_37 = PRIM_CDR(v__3514482_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3514785_37, v__3514786_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3514878_37, v__3514879_37);
 return;
 } else {
-coraReturn(co, v__3514388_37);
+coraReturn(co, v__3514481_37);
 return;
 }
 }
@@ -4238,9 +4238,9 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514387_37 = R[1];
-Obj v__3514781_37 = PRIM_ISCONS(v__3514387_37);
-coraReturn(co, v__3514781_37);
+Obj v__3514480_37 = R[1];
+Obj v__3514874_37 = PRIM_ISCONS(v__3514480_37);
+coraReturn(co, v__3514874_37);
 return;
 }
 }
@@ -4250,14 +4250,14 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514386_37 = R[1];
-Obj v__3514773_37 = PRIM_ISCONS(v__3514386_37);
-if (True == v__3514773_37) {
-Obj v__3514774_37 = PRIM_CAR(v__3514386_37);
-Obj v__3514775_37 = PRIM_CDR(v__3514386_37);
-R[1] = v__3514774_37;
+Obj v__3514479_37 = R[1];
+Obj v__3514866_37 = PRIM_ISCONS(v__3514479_37);
+if (True == v__3514866_37) {
+Obj v__3514867_37 = PRIM_CAR(v__3514479_37);
+Obj v__3514868_37 = PRIM_CDR(v__3514479_37);
+R[1] = v__3514867_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514775_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514868_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4266,12 +4266,12 @@ return;
 }
 case 1:
 {
-Obj v__3514776_37= co->res;
-Obj v__3514774_37 = R[1];
-Obj v__3514777_37 = makeCons(co->gc, v__3514776_37, Nil);
-Obj v__3514778_37 = makeCons(co->gc, v__3514774_37, v__3514777_37);
-Obj v__3514779_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514778_37);
-coraReturn(co, v__3514779_37);
+Obj v__3514869_37= co->res;
+Obj v__3514867_37 = R[1];
+Obj v__3514870_37 = makeCons(co->gc, v__3514869_37, Nil);
+Obj v__3514871_37 = makeCons(co->gc, v__3514867_37, v__3514870_37);
+Obj v__3514872_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514871_37);
+coraReturn(co, v__3514872_37);
 return;
 }
 }
@@ -4281,11 +4281,11 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514385_37 = R[1];
-Obj v__3514769_37 = PRIM_CDR(v__3514385_37);
-Obj v__3514770_37 = PRIM_CDR(v__3514769_37);
-Obj v__3514771_37 = PRIM_CDR(v__3514770_37);
-coraReturn(co, v__3514771_37);
+Obj v__3514478_37 = R[1];
+Obj v__3514862_37 = PRIM_CDR(v__3514478_37);
+Obj v__3514863_37 = PRIM_CDR(v__3514862_37);
+Obj v__3514864_37 = PRIM_CDR(v__3514863_37);
+coraReturn(co, v__3514864_37);
 return;
 }
 }
@@ -4295,12 +4295,12 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514384_37 = R[1];
-Obj v__3514764_37 = PRIM_CDR(v__3514384_37);
-Obj v__3514765_37 = PRIM_CDR(v__3514764_37);
-Obj v__3514766_37 = PRIM_CDR(v__3514765_37);
-Obj v__3514767_37 = PRIM_CAR(v__3514766_37);
-coraReturn(co, v__3514767_37);
+Obj v__3514477_37 = R[1];
+Obj v__3514857_37 = PRIM_CDR(v__3514477_37);
+Obj v__3514858_37 = PRIM_CDR(v__3514857_37);
+Obj v__3514859_37 = PRIM_CDR(v__3514858_37);
+Obj v__3514860_37 = PRIM_CAR(v__3514859_37);
+coraReturn(co, v__3514860_37);
 return;
 }
 }
@@ -4310,11 +4310,11 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514383_37 = R[1];
-Obj v__3514760_37 = PRIM_CDR(v__3514383_37);
-Obj v__3514761_37 = PRIM_CDR(v__3514760_37);
-Obj v__3514762_37 = PRIM_CAR(v__3514761_37);
-coraReturn(co, v__3514762_37);
+Obj v__3514476_37 = R[1];
+Obj v__3514853_37 = PRIM_CDR(v__3514476_37);
+Obj v__3514854_37 = PRIM_CDR(v__3514853_37);
+Obj v__3514855_37 = PRIM_CAR(v__3514854_37);
+coraReturn(co, v__3514855_37);
 return;
 }
 }
@@ -4324,10 +4324,10 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514382_37 = R[1];
-Obj v__3514757_37 = PRIM_CDR(v__3514382_37);
-Obj v__3514758_37 = PRIM_CDR(v__3514757_37);
-coraReturn(co, v__3514758_37);
+Obj v__3514475_37 = R[1];
+Obj v__3514850_37 = PRIM_CDR(v__3514475_37);
+Obj v__3514851_37 = PRIM_CDR(v__3514850_37);
+coraReturn(co, v__3514851_37);
 return;
 }
 }
@@ -4337,10 +4337,10 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514381_37 = R[1];
-Obj v__3514754_37 = PRIM_CAR(v__3514381_37);
-Obj v__3514755_37 = PRIM_CDR(v__3514754_37);
-coraReturn(co, v__3514755_37);
+Obj v__3514474_37 = R[1];
+Obj v__3514847_37 = PRIM_CAR(v__3514474_37);
+Obj v__3514848_37 = PRIM_CDR(v__3514847_37);
+coraReturn(co, v__3514848_37);
 return;
 }
 }
@@ -4350,10 +4350,10 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514380_37 = R[1];
-Obj v__3514751_37 = PRIM_CAR(v__3514380_37);
-Obj v__3514752_37 = PRIM_CAR(v__3514751_37);
-coraReturn(co, v__3514752_37);
+Obj v__3514473_37 = R[1];
+Obj v__3514844_37 = PRIM_CAR(v__3514473_37);
+Obj v__3514845_37 = PRIM_CAR(v__3514844_37);
+coraReturn(co, v__3514845_37);
 return;
 }
 }
@@ -4363,10 +4363,10 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514379_37 = R[1];
-Obj v__3514748_37 = PRIM_CDR(v__3514379_37);
-Obj v__3514749_37 = PRIM_CAR(v__3514748_37);
-coraReturn(co, v__3514749_37);
+Obj v__3514472_37 = R[1];
+Obj v__3514841_37 = PRIM_CDR(v__3514472_37);
+Obj v__3514842_37 = PRIM_CAR(v__3514841_37);
+coraReturn(co, v__3514842_37);
 return;
 }
 }
@@ -4376,9 +4376,9 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514378_37 = R[1];
-Obj v__3514746_37 = PRIM_EQ(v__3514378_37, Nil);
-coraReturn(co, v__3514746_37);
+Obj v__3514471_37 = R[1];
+Obj v__3514839_37 = PRIM_EQ(v__3514471_37, Nil);
+coraReturn(co, v__3514839_37);
 return;
 }
 }
diff --git a/lib/toc.c b/lib/toc.c
index 346aa7a..2db7302 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -2,6 +2,7 @@
 #include "runtime.h"
 
 static int packageID = -1;
+static void clofun147(struct Cora* co, int label, Obj *R);
 static void clofun146(struct Cora* co, int label, Obj *R);
 static void clofun145(struct Cora* co, int label, Obj *R);
 static void clofun144(struct Cora* co, int label, Obj *R);
@@ -153,7 +154,7 @@ static void clofun0(struct Cora* co, int label, Obj *R);
 
 void entry(struct Cora *co, int label, Obj *R) {
 if (packageID == -1) { packageID = packageIDAlloc(); }
-Binding *__symbolTable = malloc(sizeof(Binding) * 131);
+Binding *__symbolTable = malloc(sizeof(Binding) * 132);
 __symbolTable[0] = bindSymbol(co, intern("cora/lib/io#close-output-file"));
 __symbolTable[1] = bindSymbol(co, intern("cora/lib/io#open-output-file"));
 __symbolTable[2] = bindSymbol(co, intern("cora/init#macroexpand"));
@@ -221,830 +222,832 @@ __symbolTable[63] = bindSymbol(co, intern("cora/lib/toc#liveness-analyze"));
 __symbolTable[64] = bindSymbol(co, intern("cora/init#caar"));
 __symbolTable[65] = bindSymbol(co, intern("cora/init#pair?"));
 __symbolTable[66] = bindSymbol(co, intern("cora/lib/toc#wrap-var"));
-__symbolTable[67] = bindSymbol(co, intern("cora/init#reverse"));
-__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
-__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#tailify"));
-__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#id"));
-__symbolTable[71] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
-__symbolTable[72] = bindSymbol(co, intern("return"));
-__symbolTable[73] = bindSymbol(co, intern("call"));
-__symbolTable[74] = bindSymbol(co, intern("tailcall"));
-__symbolTable[75] = bindSymbol(co, intern("continuation"));
-__symbolTable[76] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
-__symbolTable[77] = bindSymbol(co, intern("%closure-ref"));
-__symbolTable[78] = bindSymbol(co, intern("%closure"));
-__symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
-__symbolTable[80] = bindSymbol(co, intern("cora/lib/toc#diff"));
-__symbolTable[81] = bindSymbol(co, intern("cora/init#elem?"));
-__symbolTable[82] = bindSymbol(co, intern("cora/lib/toc#union"));
-__symbolTable[83] = bindSymbol(co, intern("cora/init#boolean?"));
-__symbolTable[84] = bindSymbol(co, intern("cora/init#number?"));
-__symbolTable[85] = bindSymbol(co, intern("quote"));
-__symbolTable[86] = bindSymbol(co, intern("do"));
-__symbolTable[87] = bindSymbol(co, intern("let"));
-__symbolTable[88] = bindSymbol(co, intern("if"));
-__symbolTable[89] = bindSymbol(co, intern("cora/init#append"));
-__symbolTable[90] = bindSymbol(co, intern("lambda"));
-__symbolTable[91] = bindSymbol(co, intern("%builtin"));
-__symbolTable[92] = bindSymbol(co, intern("cora/init#length"));
-__symbolTable[93] = bindSymbol(co, intern("cora/init#map"));
-__symbolTable[94] = bindSymbol(co, intern("%global"));
-__symbolTable[95] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
-__symbolTable[96] = bindSymbol(co, intern("%const"));
-__symbolTable[97] = bindSymbol(co, intern("cora/lib/toc#parse"));
-__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
-__symbolTable[99] = bindSymbol(co, intern("cora/init#cadr"));
-__symbolTable[100] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
-__symbolTable[101] = bindSymbol(co, intern("cora/init#caddr"));
-__symbolTable[102] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
-__symbolTable[103] = bindSymbol(co, intern("cora/init#null?"));
-__symbolTable[104] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
-__symbolTable[105] = bindSymbol(co, intern("string?"));
-__symbolTable[106] = bindSymbol(co, intern("integer?"));
-__symbolTable[107] = bindSymbol(co, intern("not"));
-__symbolTable[108] = bindSymbol(co, intern("symbol?"));
-__symbolTable[109] = bindSymbol(co, intern("gensym"));
-__symbolTable[110] = bindSymbol(co, intern("<"));
-__symbolTable[111] = bindSymbol(co, intern(">"));
-__symbolTable[112] = bindSymbol(co, intern("="));
-__symbolTable[113] = bindSymbol(co, intern("/"));
-__symbolTable[114] = bindSymbol(co, intern("*"));
-__symbolTable[115] = bindSymbol(co, intern("-"));
-__symbolTable[116] = bindSymbol(co, intern("+"));
-__symbolTable[117] = bindSymbol(co, intern("cons?"));
-__symbolTable[118] = bindSymbol(co, intern("cons"));
-__symbolTable[119] = bindSymbol(co, intern("cdr"));
-__symbolTable[120] = bindSymbol(co, intern("car"));
-__symbolTable[121] = bindSymbol(co, intern("set"));
-__symbolTable[122] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
-__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
-__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#index"));
-__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
-__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#foldl"));
-__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#error"));
-__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#assq"));
-__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
-__symbolTable[130] = bindSymbol(co, intern("cora/init#import"));
+__symbolTable[67] = bindSymbol(co, intern("cora/lib/toc#tailify-list"));
+__symbolTable[68] = bindSymbol(co, intern("cora/lib/toc#tailify"));
+__symbolTable[69] = bindSymbol(co, intern("cora/lib/toc#id"));
+__symbolTable[70] = bindSymbol(co, intern("cora/lib/toc#closure-convert"));
+__symbolTable[71] = bindSymbol(co, intern("return"));
+__symbolTable[72] = bindSymbol(co, intern("call"));
+__symbolTable[73] = bindSymbol(co, intern("tailcall"));
+__symbolTable[74] = bindSymbol(co, intern("continuation"));
+__symbolTable[75] = bindSymbol(co, intern("cora/lib/toc#free-vars"));
+__symbolTable[76] = bindSymbol(co, intern("%closure-ref"));
+__symbolTable[77] = bindSymbol(co, intern("%closure"));
+__symbolTable[78] = bindSymbol(co, intern("cora/lib/toc#convert-protect?"));
+__symbolTable[79] = bindSymbol(co, intern("cora/lib/toc#diff"));
+__symbolTable[80] = bindSymbol(co, intern("cora/init#elem?"));
+__symbolTable[81] = bindSymbol(co, intern("cora/lib/toc#union"));
+__symbolTable[82] = bindSymbol(co, intern("cora/init#boolean?"));
+__symbolTable[83] = bindSymbol(co, intern("cora/init#number?"));
+__symbolTable[84] = bindSymbol(co, intern("quote"));
+__symbolTable[85] = bindSymbol(co, intern("do"));
+__symbolTable[86] = bindSymbol(co, intern("if"));
+__symbolTable[87] = bindSymbol(co, intern("%builtin"));
+__symbolTable[88] = bindSymbol(co, intern("cora/init#length"));
+__symbolTable[89] = bindSymbol(co, intern("cora/init#map"));
+__symbolTable[90] = bindSymbol(co, intern("%global"));
+__symbolTable[91] = bindSymbol(co, intern("cora/lib/toc#add-symbol-to-list"));
+__symbolTable[92] = bindSymbol(co, intern("%const"));
+__symbolTable[93] = bindSymbol(co, intern("cora/lib/toc#parse"));
+__symbolTable[94] = bindSymbol(co, intern("let"));
+__symbolTable[95] = bindSymbol(co, intern("cora/init#reverse"));
+__symbolTable[96] = bindSymbol(co, intern("cora/init#append"));
+__symbolTable[97] = bindSymbol(co, intern("lambda"));
+__symbolTable[98] = bindSymbol(co, intern("cora/lib/toc#partial-apply"));
+__symbolTable[99] = bindSymbol(co, intern("cora/lib/toc#temp-list"));
+__symbolTable[100] = bindSymbol(co, intern("cora/init#cadr"));
+__symbolTable[101] = bindSymbol(co, intern("cora/lib/toc#builtin->args"));
+__symbolTable[102] = bindSymbol(co, intern("cora/init#caddr"));
+__symbolTable[103] = bindSymbol(co, intern("cora/lib/toc#builtin->name"));
+__symbolTable[104] = bindSymbol(co, intern("cora/init#null?"));
+__symbolTable[105] = bindSymbol(co, intern("cora/lib/toc#builtin?"));
+__symbolTable[106] = bindSymbol(co, intern("string?"));
+__symbolTable[107] = bindSymbol(co, intern("integer?"));
+__symbolTable[108] = bindSymbol(co, intern("not"));
+__symbolTable[109] = bindSymbol(co, intern("symbol?"));
+__symbolTable[110] = bindSymbol(co, intern("gensym"));
+__symbolTable[111] = bindSymbol(co, intern("<"));
+__symbolTable[112] = bindSymbol(co, intern(">"));
+__symbolTable[113] = bindSymbol(co, intern("="));
+__symbolTable[114] = bindSymbol(co, intern("/"));
+__symbolTable[115] = bindSymbol(co, intern("*"));
+__symbolTable[116] = bindSymbol(co, intern("-"));
+__symbolTable[117] = bindSymbol(co, intern("+"));
+__symbolTable[118] = bindSymbol(co, intern("cons?"));
+__symbolTable[119] = bindSymbol(co, intern("cons"));
+__symbolTable[120] = bindSymbol(co, intern("cdr"));
+__symbolTable[121] = bindSymbol(co, intern("car"));
+__symbolTable[122] = bindSymbol(co, intern("set"));
+__symbolTable[123] = bindSymbol(co, intern("cora/lib/toc#*builtin-prims*"));
+__symbolTable[124] = bindSymbol(co, intern("cora/lib/toc#exist-in-env"));
+__symbolTable[125] = bindSymbol(co, intern("cora/lib/toc#index"));
+__symbolTable[126] = bindSymbol(co, intern("cora/lib/toc#pos-in-list0"));
+__symbolTable[127] = bindSymbol(co, intern("cora/lib/toc#foldl"));
+__symbolTable[128] = bindSymbol(co, intern("cora/lib/toc#error"));
+__symbolTable[129] = bindSymbol(co, intern("cora/lib/toc#assq"));
+__symbolTable[130] = bindSymbol(co, intern("cora/lib/toc#*ns-export*"));
+__symbolTable[131] = bindSymbol(co, intern("cora/init#import"));
 addPackage(co, packageID, __symbolTable);
 stackAlloc(co, 1);
-co->ctx.fn = clofun146;
+co->ctx.fn = clofun147;
 co->ctx.label = 0;
 }
 
-static void clofun146(struct Cora* co, int label, Obj *R) {
+static void clofun147(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun146, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/toc/internal"));
+saveCont(co, clofun147, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/toc/internal"));
 return;
 }
 case 1:
 {
-Obj v__3521474_37= co->res;
-Obj v__3521480_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun112, 2, 0));
-Obj v__3521486_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun113, 2, 0));
-Obj v__3521508_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun115, 3, 0));
-Obj v__3521532_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun117, 4, 0));
-Obj v__3521544_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun120, 3, 0));
-Obj v__3521585_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun125, 1, 0));
-Obj v__3521624_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun128, 4, 0));
-Obj v__3521676_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun133, 2, 0));
-Obj v__3521677_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun134, 2, 0));
-Obj v__3521691_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun142, 1, 0));
-Obj v__3521692_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v__3521705_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun144, 1, 0));
-Obj v__3521715_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun145, 2, 0));
-coraReturn(co, v__3521715_37);
+Obj v__3521600_37= co->res;
+Obj v__3521606_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3521612_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj v__3521634_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun116, 3, 0));
+Obj v__3521658_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun118, 4, 0));
+Obj v__3521670_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun121, 3, 0));
+Obj v__3521711_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun126, 1, 0));
+Obj v__3521750_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun129, 4, 0));
+Obj v__3521802_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun134, 2, 0));
+Obj v__3521803_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun135, 2, 0));
+Obj v__3521817_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun143, 1, 0));
+Obj v__3521818_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v__3521831_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun145, 1, 0));
+Obj v__3521841_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun146, 2, 0));
+coraReturn(co, v__3521841_37);
 return;
 }
 case 2:
 {
-Obj v__3520071_37= co->res;
-Obj v__3520072_37 = primSet(co, getBinding(co, packageID, 129).name, Nil);
-Obj v__3520087_37 = primSet(co, getBinding(co, packageID, 128).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3520093_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3520103_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3520104_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3520111_37 = primSet(co, getBinding(co, packageID, 123).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3520112_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3520113_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520112_37);
-Obj v__3520114_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520113_37);
-Obj v__3520115_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3520116_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520115_37);
-Obj v__3520117_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520116_37);
-Obj v__3520118_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3520119_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520118_37);
-Obj v__3520120_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520119_37);
-Obj v__3520121_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
-Obj v__3520122_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520121_37);
-Obj v__3520123_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520122_37);
-Obj v__3520124_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3520125_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520124_37);
-Obj v__3520126_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520125_37);
-Obj v__3520127_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
-Obj v__3520128_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520127_37);
-Obj v__3520129_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520128_37);
-Obj v__3520130_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
-Obj v__3520131_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520130_37);
-Obj v__3520132_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520131_37);
-Obj v__3520133_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
-Obj v__3520134_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520133_37);
-Obj v__3520135_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520134_37);
-Obj v__3520136_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3520137_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520136_37);
-Obj v__3520138_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520137_37);
-Obj v__3520139_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3520140_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520139_37);
-Obj v__3520141_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520140_37);
-Obj v__3520142_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3520143_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520142_37);
-Obj v__3520144_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520143_37);
-Obj v__3520145_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3520146_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520145_37);
-Obj v__3520147_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520146_37);
-Obj v__3520148_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3520149_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520148_37);
-Obj v__3520150_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520149_37);
-Obj v__3520151_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3520152_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520151_37);
-Obj v__3520153_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520152_37);
-Obj v__3520154_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3520155_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520154_37);
-Obj v__3520156_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3520155_37);
-Obj v__3520157_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3520158_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520157_37);
-Obj v__3520159_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3520158_37);
-Obj v__3520160_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3520161_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520160_37);
-Obj v__3520162_37 = makeCons(co->gc, getBinding(co, packageID, 105).name, v__3520161_37);
-Obj v__3520163_37 = makeCons(co->gc, v__3520162_37, Nil);
-Obj v__3520164_37 = makeCons(co->gc, v__3520159_37, v__3520163_37);
-Obj v__3520165_37 = makeCons(co->gc, v__3520156_37, v__3520164_37);
-Obj v__3520166_37 = makeCons(co->gc, v__3520153_37, v__3520165_37);
-Obj v__3520167_37 = makeCons(co->gc, v__3520150_37, v__3520166_37);
-Obj v__3520168_37 = makeCons(co->gc, v__3520147_37, v__3520167_37);
-Obj v__3520169_37 = makeCons(co->gc, v__3520144_37, v__3520168_37);
-Obj v__3520170_37 = makeCons(co->gc, v__3520141_37, v__3520169_37);
-Obj v__3520171_37 = makeCons(co->gc, v__3520138_37, v__3520170_37);
-Obj v__3520172_37 = makeCons(co->gc, v__3520135_37, v__3520171_37);
-Obj v__3520173_37 = makeCons(co->gc, v__3520132_37, v__3520172_37);
-Obj v__3520174_37 = makeCons(co->gc, v__3520129_37, v__3520173_37);
-Obj v__3520175_37 = makeCons(co->gc, v__3520126_37, v__3520174_37);
-Obj v__3520176_37 = makeCons(co->gc, v__3520123_37, v__3520175_37);
-Obj v__3520177_37 = makeCons(co->gc, v__3520120_37, v__3520176_37);
-Obj v__3520178_37 = makeCons(co->gc, v__3520117_37, v__3520177_37);
-Obj v__3520179_37 = makeCons(co->gc, v__3520114_37, v__3520178_37);
-Obj v__3520180_37 = primSet(co, getBinding(co, packageID, 122).name, v__3520179_37);
-Obj v__3520184_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3520187_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3520190_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3520195_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3520410_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 4, clofun22, 3, 0));
-Obj v__3520421_37 = primSet(co, getBinding(co, packageID, 82).name, makeNative(co->gc, 4, clofun24, 2, 0));
-Obj v__3520432_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 4, clofun26, 2, 0));
-Obj v__3520493_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun33, 1, 0));
-Obj v__3520668_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 2, clofun43, 1, 0));
-Obj v__3520741_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 4, clofun46, 2, 0));
-Obj v__3520744_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 2, clofun47, 1, 0));
-Obj v__3520881_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3520904_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 4, clofun59, 3, 0));
-Obj v__3520981_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun63, 2, 0));
-Obj v__3521012_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun67, 3, 0));
-Obj v__3521018_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun70, 4, 0));
-Obj v__3521023_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun72, 2, 0));
-Obj v__3521032_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun74, 1, 0));
-Obj v__3521083_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun76, 2, 0));
-Obj v__3521091_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun77, 2, 0));
-Obj v__3521098_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun78, 2, 0));
-Obj v__3521103_37 = primSet(co, getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun79, 2, 0));
-Obj v__3521109_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun80, 3, 0));
-Obj v__3521110_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun81, 2, 0));
-Obj v__3521117_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun83, 5, 0));
-Obj v__3521124_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun85, 5, 0));
-Obj v__3521411_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun98, 5, 0));
-Obj v__3521425_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun100, 5, 0));
-Obj v__3521447_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun102, 5, 0));
-Obj v__3521449_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun103, 2, 0));
-Obj v__3521453_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v__3521454_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj v__3521455_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun106, 1, 0));
-Obj v__3521456_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v__3521457_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj v__3521464_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun109, 1, 0));
-Obj v__3521471_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun110, 2, 0));
-saveCont(co, clofun146, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun111, 1, 0));
+Obj v__3520183_37= co->res;
+Obj v__3520184_37 = primSet(co, getBinding(co, packageID, 130).name, Nil);
+Obj v__3520199_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3520205_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3520215_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3520216_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3520223_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3520224_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3520225_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520224_37);
+Obj v__3520226_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3520225_37);
+Obj v__3520227_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3520228_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520227_37);
+Obj v__3520229_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520228_37);
+Obj v__3520230_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3520231_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520230_37);
+Obj v__3520232_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520231_37);
+Obj v__3520233_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3520234_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520233_37);
+Obj v__3520235_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520234_37);
+Obj v__3520236_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3520237_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520236_37);
+Obj v__3520238_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520237_37);
+Obj v__3520239_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3520240_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520239_37);
+Obj v__3520241_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520240_37);
+Obj v__3520242_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3520243_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520242_37);
+Obj v__3520244_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520243_37);
+Obj v__3520245_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3520246_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520245_37);
+Obj v__3520247_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520246_37);
+Obj v__3520248_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3520249_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520248_37);
+Obj v__3520250_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520249_37);
+Obj v__3520251_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3520252_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520251_37);
+Obj v__3520253_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520252_37);
+Obj v__3520254_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
+Obj v__3520255_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520254_37);
+Obj v__3520256_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520255_37);
+Obj v__3520257_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
+Obj v__3520258_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520257_37);
+Obj v__3520259_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520258_37);
+Obj v__3520260_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3520261_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520260_37);
+Obj v__3520262_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520261_37);
+Obj v__3520263_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3520264_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520263_37);
+Obj v__3520265_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520264_37);
+Obj v__3520266_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3520267_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520266_37);
+Obj v__3520268_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520267_37);
+Obj v__3520269_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3520270_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520269_37);
+Obj v__3520271_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3520270_37);
+Obj v__3520272_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3520273_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520272_37);
+Obj v__3520274_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3520273_37);
+Obj v__3520275_37 = makeCons(co->gc, v__3520274_37, Nil);
+Obj v__3520276_37 = makeCons(co->gc, v__3520271_37, v__3520275_37);
+Obj v__3520277_37 = makeCons(co->gc, v__3520268_37, v__3520276_37);
+Obj v__3520278_37 = makeCons(co->gc, v__3520265_37, v__3520277_37);
+Obj v__3520279_37 = makeCons(co->gc, v__3520262_37, v__3520278_37);
+Obj v__3520280_37 = makeCons(co->gc, v__3520259_37, v__3520279_37);
+Obj v__3520281_37 = makeCons(co->gc, v__3520256_37, v__3520280_37);
+Obj v__3520282_37 = makeCons(co->gc, v__3520253_37, v__3520281_37);
+Obj v__3520283_37 = makeCons(co->gc, v__3520250_37, v__3520282_37);
+Obj v__3520284_37 = makeCons(co->gc, v__3520247_37, v__3520283_37);
+Obj v__3520285_37 = makeCons(co->gc, v__3520244_37, v__3520284_37);
+Obj v__3520286_37 = makeCons(co->gc, v__3520241_37, v__3520285_37);
+Obj v__3520287_37 = makeCons(co->gc, v__3520238_37, v__3520286_37);
+Obj v__3520288_37 = makeCons(co->gc, v__3520235_37, v__3520287_37);
+Obj v__3520289_37 = makeCons(co->gc, v__3520232_37, v__3520288_37);
+Obj v__3520290_37 = makeCons(co->gc, v__3520229_37, v__3520289_37);
+Obj v__3520291_37 = makeCons(co->gc, v__3520226_37, v__3520290_37);
+Obj v__3520292_37 = primSet(co, getBinding(co, packageID, 123).name, v__3520291_37);
+Obj v__3520296_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3520299_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3520302_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3520307_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3520325_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 5, clofun11, 4, 0));
+Obj v__3520536_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 4, clofun23, 3, 0));
+Obj v__3520547_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun25, 2, 0));
+Obj v__3520558_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 4, clofun27, 2, 0));
+Obj v__3520619_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun34, 1, 0));
+Obj v__3520794_37 = primSet(co, getBinding(co, packageID, 75).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3520867_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun47, 2, 0));
+Obj v__3520870_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun48, 1, 0));
+Obj v__3521007_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun57, 2, 0));
+Obj v__3521030_37 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun60, 3, 0));
+Obj v__3521107_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun64, 2, 0));
+Obj v__3521138_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun68, 3, 0));
+Obj v__3521144_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun71, 4, 0));
+Obj v__3521149_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun73, 2, 0));
+Obj v__3521158_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun75, 1, 0));
+Obj v__3521209_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun77, 2, 0));
+Obj v__3521217_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj v__3521224_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun79, 2, 0));
+Obj v__3521229_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 4, clofun80, 2, 0));
+Obj v__3521235_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun81, 3, 0));
+Obj v__3521236_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun82, 2, 0));
+Obj v__3521243_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj v__3521250_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun86, 5, 0));
+Obj v__3521537_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj v__3521551_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun101, 5, 0));
+Obj v__3521573_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun103, 5, 0));
+Obj v__3521575_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3521579_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj v__3521580_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj v__3521581_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3521582_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj v__3521583_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj v__3521590_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun110, 1, 0));
+Obj v__3521597_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun111, 2, 0));
+saveCont(co, clofun147, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun112, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3520070_37= co->res;
-saveCont(co, clofun146, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/hash-h"));
+Obj v__3520182_37= co->res;
+saveCont(co, clofun147, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3520069_37= co->res;
-saveCont(co, clofun146, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), makeCString(co->gc, "cora/lib/io"));
+Obj v__3520181_37= co->res;
+saveCont(co, clofun147, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/io"));
 return;
 }
 }
 }
 
-static void clofun145(struct Cora* co, int label, Obj *R) {
+static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519795_37 = R[1];
-Obj v__3519796_37 = R[2];
-Obj v__3521706_37 = primGenSym(co);
-Obj v__3520066_37 = v__3521706_37;
-Obj v__3521707_37 = primSet(co, v__3520066_37, Nil);
-R[1] = v__3519795_37;
-R[2] = v__3519796_37;
-R[3] = v__3520066_37;
-saveCont(co, clofun145, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3520066_37);
+Obj v__3519904_37 = R[1];
+Obj v__3519905_37 = R[2];
+Obj v__3521832_37 = primGenSym(co);
+Obj v__3520178_37 = v__3521832_37;
+Obj v__3521833_37 = primSet(co, v__3520178_37, Nil);
+R[1] = v__3519904_37;
+R[2] = v__3519905_37;
+R[3] = v__3520178_37;
+saveCont(co, clofun146, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3520178_37);
 return;
 }
 case 1:
 {
-Obj v__3521714_37= co->res;
-Obj v__3520068_37 = R[1];
+Obj v__3521840_37= co->res;
+Obj v__3520180_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3520068_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3520180_37);
 return;
 }
 case 2:
 {
-Obj v__3521713_37= co->res;
-Obj v__3520067_37 = R[1];
-Obj v__3520068_37 = R[2];
-R[1] = v__3520068_37;
-saveCont(co, clofun145, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3520068_37, v__3520067_37, v__3521713_37);
+Obj v__3521839_37= co->res;
+Obj v__3520179_37 = R[1];
+Obj v__3520180_37 = R[2];
+R[1] = v__3520180_37;
+saveCont(co, clofun146, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3520180_37, v__3520179_37, v__3521839_37);
 return;
 }
 case 3:
 {
-Obj v__3521712_37= co->res;
-Obj v__3520066_37 = R[1];
-Obj v__3520067_37 = R[2];
-Obj v__3520068_37 = v__3521712_37;
-R[1] = v__3520067_37;
-R[2] = v__3520068_37;
-saveCont(co, clofun145, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520066_37);
+Obj v__3521838_37= co->res;
+Obj v__3520178_37 = R[1];
+Obj v__3520179_37 = R[2];
+Obj v__3520180_37 = v__3521838_37;
+R[1] = v__3520179_37;
+R[2] = v__3520180_37;
+saveCont(co, clofun146, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520178_37);
 return;
 }
 case 4:
 {
-Obj v__3521711_37= co->res;
-Obj v__3519796_37 = R[1];
-Obj v__3520066_37 = R[2];
-Obj v__3520067_37 = v__3521711_37;
-R[1] = v__3520066_37;
-R[2] = v__3520067_37;
-saveCont(co, clofun145, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519796_37);
+Obj v__3521837_37= co->res;
+Obj v__3519905_37 = R[1];
+Obj v__3520178_37 = R[2];
+Obj v__3520179_37 = v__3521837_37;
+R[1] = v__3520178_37;
+R[2] = v__3520179_37;
+saveCont(co, clofun146, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519905_37);
 return;
 }
 case 5:
 {
-Obj v__3521710_37= co->res;
-Obj v__3521708_37 = R[1];
-Obj v__3519796_37 = R[2];
-Obj v__3520066_37 = R[3];
-R[1] = v__3519796_37;
-R[2] = v__3520066_37;
-saveCont(co, clofun145, 4, R);
-coraCall1(co, v__3521708_37, v__3521710_37);
+Obj v__3521836_37= co->res;
+Obj v__3521834_37 = R[1];
+Obj v__3519905_37 = R[2];
+Obj v__3520178_37 = R[3];
+R[1] = v__3519905_37;
+R[2] = v__3520178_37;
+saveCont(co, clofun146, 4, R);
+coraCall1(co, v__3521834_37, v__3521836_37);
 return;
 }
 case 6:
 {
-Obj v__3521709_37= co->res;
-Obj v__3521708_37 = R[1];
-Obj v__3519796_37 = R[2];
-Obj v__3520066_37 = R[3];
-R[1] = v__3521708_37;
-R[2] = v__3519796_37;
-R[3] = v__3520066_37;
-saveCont(co, clofun145, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3521709_37);
+Obj v__3521835_37= co->res;
+Obj v__3521834_37 = R[1];
+Obj v__3519905_37 = R[2];
+Obj v__3520178_37 = R[3];
+R[1] = v__3521834_37;
+R[2] = v__3519905_37;
+R[3] = v__3520178_37;
+saveCont(co, clofun146, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3521835_37);
 return;
 }
 case 7:
 {
-Obj v__3521708_37= co->res;
-Obj v__3519795_37 = R[1];
-Obj v__3519796_37 = R[2];
-Obj v__3520066_37 = R[3];
-R[1] = v__3521708_37;
-R[2] = v__3519796_37;
-R[3] = v__3520066_37;
-saveCont(co, clofun145, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519795_37);
+Obj v__3521834_37= co->res;
+Obj v__3519904_37 = R[1];
+Obj v__3519905_37 = R[2];
+Obj v__3520178_37 = R[3];
+R[1] = v__3521834_37;
+R[2] = v__3519905_37;
+R[3] = v__3520178_37;
+saveCont(co, clofun146, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519904_37);
 return;
 }
 }
 }
 
-static void clofun144(struct Cora* co, int label, Obj *R) {
+static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519793_37 = R[1];
-saveCont(co, clofun144, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v__3519793_37);
+Obj v__3519902_37 = R[1];
+saveCont(co, clofun145, 8, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v__3519902_37);
 return;
 }
 case 1:
 {
-Obj v__3521700_37= co->res;
-Obj v__3520062_37 = R[1];
+Obj v__3521826_37= co->res;
+Obj v__3520174_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520062_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520174_37);
 return;
 }
 case 2:
 {
-Obj v__3521699_37= co->res;
-Obj v__3520062_37 = R[1];
-R[1] = v__3520062_37;
-saveCont(co, clofun144, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520062_37);
+Obj v__3521825_37= co->res;
+Obj v__3520174_37 = R[1];
+R[1] = v__3520174_37;
+saveCont(co, clofun145, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520174_37);
 return;
 }
 case 3:
 {
-Obj v__3521702_37= co->res;
-Obj v__3520062_37 = R[1];
+Obj v__3521828_37= co->res;
+Obj v__3520174_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520062_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520174_37);
 return;
 }
 case 4:
 {
-Obj v__3521701_37= co->res;
-Obj v__3520062_37 = R[1];
-R[1] = v__3520062_37;
-saveCont(co, clofun144, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520062_37);
+Obj v__3521827_37= co->res;
+Obj v__3520174_37 = R[1];
+R[1] = v__3520174_37;
+saveCont(co, clofun145, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520174_37);
 return;
 }
 case 5:
 {
-Obj v__3521704_37= co->res;
-Obj v__3520062_37 = R[1];
+Obj v__3521830_37= co->res;
+Obj v__3520174_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520062_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520174_37);
 return;
 }
 case 6:
 {
-Obj v__3521703_37= co->res;
-Obj v__3520062_37 = R[1];
-R[1] = v__3520062_37;
-saveCont(co, clofun144, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520062_37);
+Obj v__3521829_37= co->res;
+Obj v__3520174_37 = R[1];
+R[1] = v__3520174_37;
+saveCont(co, clofun145, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520174_37);
 return;
 }
 case 7:
 {
-Obj v__3521696_37= co->res;
-Obj v__3520065_37 = R[1];
-Obj v__3520062_37 = R[2];
-if (True == v__3521696_37) {
-Obj v__3521697_37 = PRIM_CAR(v__3520062_37);
-Obj v__3521698_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521697_37);
-if (True == v__3521698_37) {
-R[1] = v__3520062_37;
-saveCont(co, clofun144, 2, R);
-coraCall1(co, v__3520065_37, True);
+Obj v__3521822_37= co->res;
+Obj v__3520177_37 = R[1];
+Obj v__3520174_37 = R[2];
+if (True == v__3521822_37) {
+Obj v__3521823_37 = PRIM_CAR(v__3520174_37);
+Obj v__3521824_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521823_37);
+if (True == v__3521824_37) {
+R[1] = v__3520174_37;
+saveCont(co, clofun145, 2, R);
+coraCall1(co, v__3520177_37, True);
 return;
 } else {
-R[1] = v__3520062_37;
-saveCont(co, clofun144, 4, R);
-coraCall1(co, v__3520065_37, False);
+R[1] = v__3520174_37;
+saveCont(co, clofun145, 4, R);
+coraCall1(co, v__3520177_37, False);
 return;
 }
 } else {
-R[1] = v__3520062_37;
-saveCont(co, clofun144, 6, R);
-coraCall1(co, v__3520065_37, False);
+R[1] = v__3520174_37;
+saveCont(co, clofun145, 6, R);
+coraCall1(co, v__3520177_37, False);
 return;
 }
 }
 case 8:
 {
-Obj v__3521693_37= co->res;
-Obj v__3520062_37 = v__3521693_37;
-Obj v__3520065_37 = makeNative(co->gc, 2, clofun143, 1, 1, v__3520062_37);
-R[1] = v__3520065_37;
-R[2] = v__3520062_37;
-saveCont(co, clofun144, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520062_37);
+Obj v__3521819_37= co->res;
+Obj v__3520174_37 = v__3521819_37;
+Obj v__3520177_37 = makeNative(co->gc, 2, clofun144, 1, 1, v__3520174_37);
+R[1] = v__3520177_37;
+R[2] = v__3520174_37;
+saveCont(co, clofun145, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520174_37);
 return;
 }
 }
 }
 
-static void clofun143(struct Cora* co, int label, Obj *R) {
+static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520064_37 = R[1];
-if (True == v__3520064_37) {
-Obj v__3521694_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v__3521694_37);
+Obj v__3520176_37 = R[1];
+if (True == v__3520176_37) {
+Obj v__3521820_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v__3521820_37);
 return;
 } else {
-Obj v__3521695_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v__3521695_37);
+Obj v__3521821_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v__3521821_37);
 return;
 }
 }
 }
 }
 
-static void clofun142(struct Cora* co, int label, Obj *R) {
+static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519780_37 = R[1];
-Obj v__3520058_37 = makeNative(co->gc, 1, clofun139, 0, 1, v__3519780_37);
-Obj v__3521686_37 = PRIM_ISCONS(v__3519780_37);
-if (True == v__3521686_37) {
-Obj v__3521687_37 = PRIM_CAR(v__3519780_37);
-Obj v__3521688_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521687_37);
-if (True == v__3521688_37) {
-Obj v__3521689_37 = PRIM_CDR(v__3519780_37);
-Obj v__3520061_37 = v__3521689_37;
-Obj v__3521690_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3520061_37);
+Obj v__3519889_37 = R[1];
+Obj v__3520170_37 = makeNative(co->gc, 1, clofun140, 0, 1, v__3519889_37);
+Obj v__3521812_37 = PRIM_ISCONS(v__3519889_37);
+if (True == v__3521812_37) {
+Obj v__3521813_37 = PRIM_CAR(v__3519889_37);
+Obj v__3521814_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521813_37);
+if (True == v__3521814_37) {
+Obj v__3521815_37 = PRIM_CDR(v__3519889_37);
+Obj v__3520173_37 = v__3521815_37;
+Obj v__3521816_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3520173_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521690_37, makeNative(co->gc, 2, clofun141, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521816_37, makeNative(co->gc, 2, clofun142, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520058_37);
+coraCall0(co, v__3520170_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520058_37);
+coraCall0(co, v__3520170_37);
 return;
 }
 }
 }
 }
 
-static void clofun141(struct Cora* co, int label, Obj *R) {
+static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519790_37 = R[1];
+Obj v__3519899_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519790_37, Nil, Nil, makeNative(co->gc, 3, clofun140, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519899_37, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
 return;
 }
 }
 }
 
-static void clofun140(struct Cora* co, int label, Obj *R) {
+static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519791_37 = R[1];
-Obj v__3519792_37 = R[2];
+Obj v__3519900_37 = R[1];
+Obj v__3519901_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519791_37, v__3519792_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519900_37, v__3519901_37);
 return;
 }
 }
 }
 
-static void clofun139(struct Cora* co, int label, Obj *R) {
+static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520059_37 = makeNative(co->gc, 1, clofun136, 0, 1, closureRef(R[0], 0));
-Obj v__3521681_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521681_37) {
-Obj v__3521682_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521683_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521682_37);
-if (True == v__3521683_37) {
-Obj v__3521684_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520060_37 = v__3521684_37;
-Obj v__3521685_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520060_37);
+Obj v__3520171_37 = makeNative(co->gc, 1, clofun137, 0, 1, closureRef(R[0], 0));
+Obj v__3521807_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521807_37) {
+Obj v__3521808_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521809_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521808_37);
+if (True == v__3521809_37) {
+Obj v__3521810_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520172_37 = v__3521810_37;
+Obj v__3521811_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520172_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521685_37, makeNative(co->gc, 2, clofun138, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521811_37, makeNative(co->gc, 2, clofun139, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520059_37);
+coraCall0(co, v__3520171_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520059_37);
+coraCall0(co, v__3520171_37);
 return;
 }
 }
 }
 }
 
-static void clofun138(struct Cora* co, int label, Obj *R) {
+static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519785_37 = R[1];
+Obj v__3519894_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519785_37, Nil, Nil, makeNative(co->gc, 3, clofun137, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519894_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
 return;
 }
 }
 }
 
-static void clofun137(struct Cora* co, int label, Obj *R) {
+static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519786_37 = R[1];
-Obj v__3519787_37 = R[2];
+Obj v__3519895_37 = R[1];
+Obj v__3519896_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519786_37, v__3519787_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519895_37, v__3519896_37);
 return;
 }
 }
 }
 
-static void clofun136(struct Cora* co, int label, Obj *R) {
+static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521678_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521804_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3521678_37, Nil, Nil, makeNative(co->gc, 3, clofun135, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3521804_37, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
 }
 
-static void clofun135(struct Cora* co, int label, Obj *R) {
+static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519781_37 = R[1];
-Obj v__3519782_37 = R[2];
-saveCont(co, clofun135, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519781_37, v__3519782_37);
+Obj v__3519890_37 = R[1];
+Obj v__3519891_37 = R[2];
+saveCont(co, clofun136, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519890_37, v__3519891_37);
 return;
 }
 case 1:
 {
-Obj v__3521679_37= co->res;
-Obj v__3521680_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521679_37);
-coraReturn(co, v__3521680_37);
+Obj v__3521805_37= co->res;
+Obj v__3521806_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521805_37);
+coraReturn(co, v__3521806_37);
 return;
 }
 }
 }
 
-static void clofun134(struct Cora* co, int label, Obj *R) {
+static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519778_37 = R[1];
-Obj v__3519779_37 = R[2];
+Obj v__3519887_37 = R[1];
+Obj v__3519888_37 = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3519778_37, v__3519779_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3519887_37, v__3519888_37);
 return;
 } else {
-coraReturn(co, v__3519779_37);
+coraReturn(co, v__3519888_37);
 return;
 }
 }
 }
 }
 
-static void clofun133(struct Cora* co, int label, Obj *R) {
+static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519765_37 = R[1];
-Obj v__3519766_37 = R[2];
-Obj v__3520047_37 = makeNative(co->gc, 2, clofun132, 0, 2, v__3519765_37, v__3519766_37);
-Obj v__3521664_37 = PRIM_ISCONS(v__3519765_37);
-if (True == v__3521664_37) {
-Obj v__3521665_37 = PRIM_CAR(v__3519765_37);
-Obj v__3521666_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521665_37);
-if (True == v__3521666_37) {
-Obj v__3521667_37 = PRIM_CDR(v__3519765_37);
-Obj v__3521668_37 = PRIM_ISCONS(v__3521667_37);
-if (True == v__3521668_37) {
-Obj v__3521669_37 = PRIM_CDR(v__3519765_37);
-Obj v__3521670_37 = PRIM_CAR(v__3521669_37);
-Obj v__3520056_37 = v__3521670_37;
-Obj v__3521671_37 = PRIM_CDR(v__3519765_37);
-Obj v__3521672_37 = PRIM_CDR(v__3521671_37);
-Obj v__3520057_37 = v__3521672_37;
-R[1] = v__3520056_37;
-saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520057_37, v__3519766_37);
+Obj v__3519874_37 = R[1];
+Obj v__3519875_37 = R[2];
+Obj v__3520159_37 = makeNative(co->gc, 2, clofun133, 0, 2, v__3519874_37, v__3519875_37);
+Obj v__3521790_37 = PRIM_ISCONS(v__3519874_37);
+if (True == v__3521790_37) {
+Obj v__3521791_37 = PRIM_CAR(v__3519874_37);
+Obj v__3521792_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521791_37);
+if (True == v__3521792_37) {
+Obj v__3521793_37 = PRIM_CDR(v__3519874_37);
+Obj v__3521794_37 = PRIM_ISCONS(v__3521793_37);
+if (True == v__3521794_37) {
+Obj v__3521795_37 = PRIM_CDR(v__3519874_37);
+Obj v__3521796_37 = PRIM_CAR(v__3521795_37);
+Obj v__3520168_37 = v__3521796_37;
+Obj v__3521797_37 = PRIM_CDR(v__3519874_37);
+Obj v__3521798_37 = PRIM_CDR(v__3521797_37);
+Obj v__3520169_37 = v__3521798_37;
+R[1] = v__3520168_37;
+saveCont(co, clofun134, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520169_37, v__3519875_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520159_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520159_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520159_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521673_37= co->res;
-Obj v__3520056_37 = R[1];
-Obj v__3521674_37 = makeCons(co->gc, v__3520056_37, v__3521673_37);
-Obj v__3521675_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3521674_37);
-coraReturn(co, v__3521675_37);
+Obj v__3521799_37= co->res;
+Obj v__3520168_37 = R[1];
+Obj v__3521800_37 = makeCons(co->gc, v__3520168_37, v__3521799_37);
+Obj v__3521801_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3521800_37);
+coraReturn(co, v__3521801_37);
 return;
 }
 }
 }
 
-static void clofun132(struct Cora* co, int label, Obj *R) {
+static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520048_37 = makeNative(co->gc, 2, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521643_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521643_37) {
-Obj v__3521644_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521645_37 = PRIM_ISCONS(v__3521644_37);
-if (True == v__3521645_37) {
-Obj v__3521646_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521647_37 = PRIM_CAR(v__3521646_37);
-Obj v__3521648_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521647_37);
-if (True == v__3521648_37) {
-Obj v__3521649_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521650_37 = PRIM_CDR(v__3521649_37);
-Obj v__3521651_37 = PRIM_ISCONS(v__3521650_37);
-if (True == v__3521651_37) {
-Obj v__3521652_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521653_37 = PRIM_CDR(v__3521652_37);
-Obj v__3521654_37 = PRIM_CAR(v__3521653_37);
-Obj v__3520054_37 = v__3521654_37;
-Obj v__3521655_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521656_37 = PRIM_CDR(v__3521655_37);
-Obj v__3521657_37 = PRIM_CDR(v__3521656_37);
-Obj v__3521658_37 = PRIM_EQ(Nil, v__3521657_37);
-if (True == v__3521658_37) {
-Obj v__3521659_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520055_37 = v__3521659_37;
-Obj v__3521660_37 = makeCons(co->gc, v__3520054_37, Nil);
-Obj v__3521661_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3521660_37);
-R[1] = v__3521661_37;
-saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520055_37, closureRef(R[0], 1));
+Obj v__3520160_37 = makeNative(co->gc, 2, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521769_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521769_37) {
+Obj v__3521770_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521771_37 = PRIM_ISCONS(v__3521770_37);
+if (True == v__3521771_37) {
+Obj v__3521772_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521773_37 = PRIM_CAR(v__3521772_37);
+Obj v__3521774_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521773_37);
+if (True == v__3521774_37) {
+Obj v__3521775_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521776_37 = PRIM_CDR(v__3521775_37);
+Obj v__3521777_37 = PRIM_ISCONS(v__3521776_37);
+if (True == v__3521777_37) {
+Obj v__3521778_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521779_37 = PRIM_CDR(v__3521778_37);
+Obj v__3521780_37 = PRIM_CAR(v__3521779_37);
+Obj v__3520166_37 = v__3521780_37;
+Obj v__3521781_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521782_37 = PRIM_CDR(v__3521781_37);
+Obj v__3521783_37 = PRIM_CDR(v__3521782_37);
+Obj v__3521784_37 = PRIM_EQ(Nil, v__3521783_37);
+if (True == v__3521784_37) {
+Obj v__3521785_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520167_37 = v__3521785_37;
+Obj v__3521786_37 = makeCons(co->gc, v__3520166_37, Nil);
+Obj v__3521787_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3521786_37);
+R[1] = v__3521787_37;
+saveCont(co, clofun133, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520167_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520160_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520160_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520160_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520160_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520160_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521662_37= co->res;
-Obj v__3521661_37 = R[1];
-Obj v__3521663_37 = makeCons(co->gc, v__3521661_37, v__3521662_37);
-coraReturn(co, v__3521663_37);
+Obj v__3521788_37= co->res;
+Obj v__3521787_37 = R[1];
+Obj v__3521789_37 = makeCons(co->gc, v__3521787_37, v__3521788_37);
+coraReturn(co, v__3521789_37);
 return;
 }
 }
 }
 
-static void clofun131(struct Cora* co, int label, Obj *R) {
+static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520049_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521631_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521631_37) {
-Obj v__3521632_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521633_37 = PRIM_ISCONS(v__3521632_37);
-if (True == v__3521633_37) {
-Obj v__3521634_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521635_37 = PRIM_CAR(v__3521634_37);
-Obj v__3521636_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521635_37);
-if (True == v__3521636_37) {
-Obj v__3521637_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521638_37 = PRIM_CDR(v__3521637_37);
-Obj v__3520052_37 = v__3521638_37;
-Obj v__3521639_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520053_37 = v__3521639_37;
-Obj v__3521640_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520052_37);
-R[1] = v__3521640_37;
-saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520053_37, closureRef(R[0], 1));
+Obj v__3520161_37 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521757_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521757_37) {
+Obj v__3521758_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521759_37 = PRIM_ISCONS(v__3521758_37);
+if (True == v__3521759_37) {
+Obj v__3521760_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521761_37 = PRIM_CAR(v__3521760_37);
+Obj v__3521762_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521761_37);
+if (True == v__3521762_37) {
+Obj v__3521763_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521764_37 = PRIM_CDR(v__3521763_37);
+Obj v__3520164_37 = v__3521764_37;
+Obj v__3521765_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520165_37 = v__3521765_37;
+Obj v__3521766_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520164_37);
+R[1] = v__3521766_37;
+saveCont(co, clofun132, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520165_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520049_37);
+coraCall0(co, v__3520161_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520049_37);
+coraCall0(co, v__3520161_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520049_37);
+coraCall0(co, v__3520161_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521641_37= co->res;
-Obj v__3521640_37 = R[1];
-Obj v__3521642_37 = makeCons(co->gc, v__3521640_37, v__3521641_37);
-coraReturn(co, v__3521642_37);
+Obj v__3521767_37= co->res;
+Obj v__3521766_37 = R[1];
+Obj v__3521768_37 = makeCons(co->gc, v__3521766_37, v__3521767_37);
+coraReturn(co, v__3521768_37);
 return;
 }
 }
 }
 
-static void clofun130(struct Cora* co, int label, Obj *R) {
+static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520050_37 = makeNative(co->gc, 1, clofun129, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3521625_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521625_37) {
-Obj v__3521626_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521627_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521626_37);
-if (True == v__3521627_37) {
-Obj v__3521628_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520051_37 = v__3521628_37;
-saveCont(co, clofun130, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520051_37, closureRef(R[0], 1));
+Obj v__3520162_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3521751_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521751_37) {
+Obj v__3521752_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521753_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521752_37);
+if (True == v__3521753_37) {
+Obj v__3521754_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520163_37 = v__3521754_37;
+saveCont(co, clofun131, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520163_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520050_37);
+coraCall0(co, v__3520162_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520050_37);
+coraCall0(co, v__3520162_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521629_37= co->res;
-Obj v__3521630_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521629_37);
-coraReturn(co, v__3521630_37);
+Obj v__3521755_37= co->res;
+Obj v__3521756_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521755_37);
+coraReturn(co, v__3521756_37);
 return;
 }
 }
 }
 
-static void clofun129(struct Cora* co, int label, Obj *R) {
+static void clofun130(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1055,338 +1058,338 @@ return;
 }
 }
 
-static void clofun128(struct Cora* co, int label, Obj *R) {
+static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519745_37 = R[1];
-Obj v__3519746_37 = R[2];
-Obj v__3519747_37 = R[3];
-Obj v__3519748_37 = R[4];
-Obj v__3521586_37 = PRIM_EQ(Nil, v__3519745_37);
-if (True == v__3521586_37) {
-R[1] = v__3519747_37;
-R[2] = v__3519748_37;
-saveCont(co, clofun128, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519746_37);
+Obj v__3519854_37 = R[1];
+Obj v__3519855_37 = R[2];
+Obj v__3519856_37 = R[3];
+Obj v__3519857_37 = R[4];
+Obj v__3521712_37 = PRIM_EQ(Nil, v__3519854_37);
+if (True == v__3521712_37) {
+R[1] = v__3519856_37;
+R[2] = v__3519857_37;
+saveCont(co, clofun129, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519855_37);
 return;
 } else {
-Obj v__3520039_37 = makeNative(co->gc, 1, clofun127, 0, 4, v__3519745_37, v__3519746_37, v__3519747_37, v__3519748_37);
-Obj v__3521613_37 = PRIM_ISCONS(v__3519745_37);
-if (True == v__3521613_37) {
-Obj v__3521614_37 = PRIM_CAR(v__3519745_37);
-Obj v__3521615_37 = PRIM_ISCONS(v__3521614_37);
-if (True == v__3521615_37) {
-Obj v__3521616_37 = PRIM_CAR(v__3519745_37);
-Obj v__3521617_37 = PRIM_CAR(v__3521616_37);
-Obj v__3521618_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3521617_37);
-if (True == v__3521618_37) {
-Obj v__3521619_37 = PRIM_CAR(v__3519745_37);
-Obj v__3521620_37 = PRIM_CDR(v__3521619_37);
-Obj v__3520045_37 = v__3521620_37;
-Obj v__3521621_37 = PRIM_CDR(v__3519745_37);
-Obj v__3520046_37 = v__3521621_37;
-Obj v__3521622_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520045_37);
-Obj v__3521623_37 = makeCons(co->gc, v__3521622_37, v__3519746_37);
+Obj v__3520151_37 = makeNative(co->gc, 1, clofun128, 0, 4, v__3519854_37, v__3519855_37, v__3519856_37, v__3519857_37);
+Obj v__3521739_37 = PRIM_ISCONS(v__3519854_37);
+if (True == v__3521739_37) {
+Obj v__3521740_37 = PRIM_CAR(v__3519854_37);
+Obj v__3521741_37 = PRIM_ISCONS(v__3521740_37);
+if (True == v__3521741_37) {
+Obj v__3521742_37 = PRIM_CAR(v__3519854_37);
+Obj v__3521743_37 = PRIM_CAR(v__3521742_37);
+Obj v__3521744_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3521743_37);
+if (True == v__3521744_37) {
+Obj v__3521745_37 = PRIM_CAR(v__3519854_37);
+Obj v__3521746_37 = PRIM_CDR(v__3521745_37);
+Obj v__3520157_37 = v__3521746_37;
+Obj v__3521747_37 = PRIM_CDR(v__3519854_37);
+Obj v__3520158_37 = v__3521747_37;
+Obj v__3521748_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520157_37);
+Obj v__3521749_37 = makeCons(co->gc, v__3521748_37, v__3519855_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520046_37, v__3521623_37, v__3519747_37, v__3519748_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520158_37, v__3521749_37, v__3519856_37, v__3519857_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520039_37);
+coraCall0(co, v__3520151_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520039_37);
+coraCall0(co, v__3520151_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520039_37);
+coraCall0(co, v__3520151_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521588_37= co->res;
-Obj v__3519748_37 = R[1];
-Obj v__3521587_37 = R[2];
+Obj v__3521714_37= co->res;
+Obj v__3519857_37 = R[1];
+Obj v__3521713_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519748_37, v__3521587_37, v__3521588_37);
+coraCall2(co, v__3519857_37, v__3521713_37, v__3521714_37);
 return;
 }
 case 2:
 {
-Obj v__3521587_37= co->res;
-Obj v__3519747_37 = R[1];
-Obj v__3519748_37 = R[2];
-R[1] = v__3519748_37;
-R[2] = v__3521587_37;
-saveCont(co, clofun128, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519747_37);
+Obj v__3521713_37= co->res;
+Obj v__3519856_37 = R[1];
+Obj v__3519857_37 = R[2];
+R[1] = v__3519857_37;
+R[2] = v__3521713_37;
+saveCont(co, clofun129, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519856_37);
 return;
 }
 }
 }
 
-static void clofun127(struct Cora* co, int label, Obj *R) {
+static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520040_37 = makeNative(co->gc, 1, clofun126, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3521602_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521602_37) {
-Obj v__3521603_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521604_37 = PRIM_ISCONS(v__3521603_37);
-if (True == v__3521604_37) {
-Obj v__3521605_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521606_37 = PRIM_CAR(v__3521605_37);
-Obj v__3521607_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3521606_37);
-if (True == v__3521607_37) {
-Obj v__3521608_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521609_37 = PRIM_CDR(v__3521608_37);
-Obj v__3520043_37 = v__3521609_37;
-Obj v__3521610_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520044_37 = v__3521610_37;
-Obj v__3521611_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3520043_37);
-Obj v__3521612_37 = makeCons(co->gc, v__3521611_37, closureRef(R[0], 1));
+Obj v__3520152_37 = makeNative(co->gc, 1, clofun127, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3521728_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521728_37) {
+Obj v__3521729_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521730_37 = PRIM_ISCONS(v__3521729_37);
+if (True == v__3521730_37) {
+Obj v__3521731_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521732_37 = PRIM_CAR(v__3521731_37);
+Obj v__3521733_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3521732_37);
+if (True == v__3521733_37) {
+Obj v__3521734_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521735_37 = PRIM_CDR(v__3521734_37);
+Obj v__3520155_37 = v__3521735_37;
+Obj v__3521736_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520156_37 = v__3521736_37;
+Obj v__3521737_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3520155_37);
+Obj v__3521738_37 = makeCons(co->gc, v__3521737_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520044_37, v__3521612_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520156_37, v__3521738_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520040_37);
+coraCall0(co, v__3520152_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520040_37);
+coraCall0(co, v__3520152_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520040_37);
+coraCall0(co, v__3520152_37);
 return;
 }
 }
 }
 }
 
-static void clofun126(struct Cora* co, int label, Obj *R) {
+static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521589_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521589_37) {
-Obj v__3521590_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520041_37 = v__3521590_37;
-Obj v__3521591_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520042_37 = v__3521591_37;
-Obj v__3521592_37 = makeCons(co->gc, v__3520041_37, Nil);
-Obj v__3521593_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3521592_37);
-Obj v__3521594_37 = makeCons(co->gc, v__3521593_37, Nil);
-Obj v__3521595_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521594_37);
-Obj v__3521596_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v__3521597_37 = makeCons(co->gc, v__3521596_37, Nil);
-Obj v__3521598_37 = makeCons(co->gc, v__3521595_37, v__3521597_37);
-Obj v__3521599_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521598_37);
-Obj v__3521600_37 = makeCons(co->gc, v__3521599_37, closureRef(R[0], 1));
-Obj v__3521601_37 = makeCons(co->gc, v__3520041_37, closureRef(R[0], 2));
+Obj v__3521715_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521715_37) {
+Obj v__3521716_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520153_37 = v__3521716_37;
+Obj v__3521717_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520154_37 = v__3521717_37;
+Obj v__3521718_37 = makeCons(co->gc, v__3520153_37, Nil);
+Obj v__3521719_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3521718_37);
+Obj v__3521720_37 = makeCons(co->gc, v__3521719_37, Nil);
+Obj v__3521721_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521720_37);
+Obj v__3521722_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v__3521723_37 = makeCons(co->gc, v__3521722_37, Nil);
+Obj v__3521724_37 = makeCons(co->gc, v__3521721_37, v__3521723_37);
+Obj v__3521725_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521724_37);
+Obj v__3521726_37 = makeCons(co->gc, v__3521725_37, closureRef(R[0], 1));
+Obj v__3521727_37 = makeCons(co->gc, v__3520153_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520042_37, v__3521600_37, v__3521601_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520154_37, v__3521726_37, v__3521727_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun125(struct Cora* co, int label, Obj *R) {
+static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519735_37 = R[1];
-Obj v__3520030_37 = makeNative(co->gc, 1, clofun124, 0, 1, v__3519735_37);
-Obj v__3521576_37 = PRIM_ISCONS(v__3519735_37);
-if (True == v__3521576_37) {
-Obj v__3521577_37 = PRIM_CAR(v__3519735_37);
-Obj v__3521578_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521577_37);
-if (True == v__3521578_37) {
-Obj v__3521579_37 = PRIM_CDR(v__3519735_37);
-Obj v__3521580_37 = PRIM_ISCONS(v__3521579_37);
-if (True == v__3521580_37) {
-Obj v__3521581_37 = PRIM_CDR(v__3519735_37);
-Obj v__3521582_37 = PRIM_CAR(v__3521581_37);
-Obj v__3521583_37 = PRIM_CDR(v__3519735_37);
-Obj v__3521584_37 = PRIM_CDR(v__3521583_37);
-Obj v__3520038_37 = v__3521584_37;
+Obj v__3519844_37 = R[1];
+Obj v__3520142_37 = makeNative(co->gc, 1, clofun125, 0, 1, v__3519844_37);
+Obj v__3521702_37 = PRIM_ISCONS(v__3519844_37);
+if (True == v__3521702_37) {
+Obj v__3521703_37 = PRIM_CAR(v__3519844_37);
+Obj v__3521704_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521703_37);
+if (True == v__3521704_37) {
+Obj v__3521705_37 = PRIM_CDR(v__3519844_37);
+Obj v__3521706_37 = PRIM_ISCONS(v__3521705_37);
+if (True == v__3521706_37) {
+Obj v__3521707_37 = PRIM_CDR(v__3519844_37);
+Obj v__3521708_37 = PRIM_CAR(v__3521707_37);
+Obj v__3521709_37 = PRIM_CDR(v__3519844_37);
+Obj v__3521710_37 = PRIM_CDR(v__3521709_37);
+Obj v__3520150_37 = v__3521710_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520038_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520150_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520030_37);
+coraCall0(co, v__3520142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520030_37);
+coraCall0(co, v__3520142_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520030_37);
+coraCall0(co, v__3520142_37);
 return;
 }
 }
 }
 }
 
-static void clofun124(struct Cora* co, int label, Obj *R) {
+static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520031_37 = makeNative(co->gc, 1, clofun123, 0, 1, closureRef(R[0], 0));
-Obj v__3521572_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521572_37) {
-Obj v__3521573_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521574_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521573_37);
-if (True == v__3521574_37) {
-Obj v__3521575_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520037_37 = v__3521575_37;
+Obj v__3520143_37 = makeNative(co->gc, 1, clofun124, 0, 1, closureRef(R[0], 0));
+Obj v__3521698_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521698_37) {
+Obj v__3521699_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521700_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521699_37);
+if (True == v__3521700_37) {
+Obj v__3521701_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520149_37 = v__3521701_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520037_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520149_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520031_37);
+coraCall0(co, v__3520143_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520031_37);
+coraCall0(co, v__3520143_37);
 return;
 }
 }
 }
 }
 
-static void clofun123(struct Cora* co, int label, Obj *R) {
+static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520032_37 = makeNative(co->gc, 2, clofun122, 0, 1, closureRef(R[0], 0));
-Obj v__3521563_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521563_37) {
-Obj v__3521564_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521565_37 = PRIM_ISCONS(v__3521564_37);
-if (True == v__3521565_37) {
-Obj v__3521566_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521567_37 = PRIM_CAR(v__3521566_37);
-Obj v__3521568_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521567_37);
-if (True == v__3521568_37) {
-Obj v__3521569_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521570_37 = PRIM_CDR(v__3521569_37);
-Obj v__3521571_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520036_37 = v__3521571_37;
+Obj v__3520144_37 = makeNative(co->gc, 2, clofun123, 0, 1, closureRef(R[0], 0));
+Obj v__3521689_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521689_37) {
+Obj v__3521690_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521691_37 = PRIM_ISCONS(v__3521690_37);
+if (True == v__3521691_37) {
+Obj v__3521692_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521693_37 = PRIM_CAR(v__3521692_37);
+Obj v__3521694_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521693_37);
+if (True == v__3521694_37) {
+Obj v__3521695_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521696_37 = PRIM_CDR(v__3521695_37);
+Obj v__3521697_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520148_37 = v__3521697_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520036_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520148_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520032_37);
+coraCall0(co, v__3520144_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520032_37);
+coraCall0(co, v__3520144_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520032_37);
+coraCall0(co, v__3520144_37);
 return;
 }
 }
 }
 }
 
-static void clofun122(struct Cora* co, int label, Obj *R) {
+static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520033_37 = makeNative(co->gc, 1, clofun121, 0, 0);
-Obj v__3521545_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521545_37) {
-Obj v__3521546_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521547_37 = PRIM_ISCONS(v__3521546_37);
-if (True == v__3521547_37) {
-Obj v__3521548_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521549_37 = PRIM_CAR(v__3521548_37);
-Obj v__3521550_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521549_37);
-if (True == v__3521550_37) {
-Obj v__3521551_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521552_37 = PRIM_CDR(v__3521551_37);
-Obj v__3521553_37 = PRIM_ISCONS(v__3521552_37);
-if (True == v__3521553_37) {
-Obj v__3521554_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521555_37 = PRIM_CDR(v__3521554_37);
-Obj v__3521556_37 = PRIM_CAR(v__3521555_37);
-Obj v__3520034_37 = v__3521556_37;
-Obj v__3521557_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521558_37 = PRIM_CDR(v__3521557_37);
-Obj v__3521559_37 = PRIM_CDR(v__3521558_37);
-Obj v__3521560_37 = PRIM_EQ(Nil, v__3521559_37);
-if (True == v__3521560_37) {
-Obj v__3521561_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520035_37 = v__3521561_37;
-R[1] = v__3520035_37;
-saveCont(co, clofun122, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 130)), v__3520034_37);
+Obj v__3520145_37 = makeNative(co->gc, 1, clofun122, 0, 0);
+Obj v__3521671_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521671_37) {
+Obj v__3521672_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521673_37 = PRIM_ISCONS(v__3521672_37);
+if (True == v__3521673_37) {
+Obj v__3521674_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521675_37 = PRIM_CAR(v__3521674_37);
+Obj v__3521676_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521675_37);
+if (True == v__3521676_37) {
+Obj v__3521677_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521678_37 = PRIM_CDR(v__3521677_37);
+Obj v__3521679_37 = PRIM_ISCONS(v__3521678_37);
+if (True == v__3521679_37) {
+Obj v__3521680_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521681_37 = PRIM_CDR(v__3521680_37);
+Obj v__3521682_37 = PRIM_CAR(v__3521681_37);
+Obj v__3520146_37 = v__3521682_37;
+Obj v__3521683_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521684_37 = PRIM_CDR(v__3521683_37);
+Obj v__3521685_37 = PRIM_CDR(v__3521684_37);
+Obj v__3521686_37 = PRIM_EQ(Nil, v__3521685_37);
+if (True == v__3521686_37) {
+Obj v__3521687_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520147_37 = v__3521687_37;
+R[1] = v__3520147_37;
+saveCont(co, clofun123, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3520146_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520033_37);
+coraCall0(co, v__3520145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520033_37);
+coraCall0(co, v__3520145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520033_37);
+coraCall0(co, v__3520145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520033_37);
+coraCall0(co, v__3520145_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520033_37);
+coraCall0(co, v__3520145_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521562_37= co->res;
-Obj v__3520035_37 = R[1];
+Obj v__3521688_37= co->res;
+Obj v__3520147_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520035_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520147_37);
 return;
 }
 }
 }
 
-static void clofun121(struct Cora* co, int label, Obj *R) {
+static void clofun122(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -1396,152 +1399,152 @@ return;
 }
 }
 
-static void clofun120(struct Cora* co, int label, Obj *R) {
+static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519730_37 = R[1];
-Obj v__3519731_37 = R[2];
-Obj v__3519732_37 = R[3];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "#include \"types.h\"\n"));
+Obj v__3519839_37 = R[1];
+Obj v__3519840_37 = R[2];
+Obj v__3519841_37 = R[3];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3521543_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
+Obj v__3521669_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 2, v__3519730_37, v__3519732_37), v__3519731_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 2, v__3519839_37, v__3519841_37), v__3519840_37);
 return;
 }
 case 2:
 {
-Obj v__3521542_37= co->res;
-Obj v__3521540_37 = R[1];
-Obj v__3519730_37 = R[2];
-Obj v__3519732_37 = R[3];
-Obj v__3519731_37 = R[4];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v__3519730_37, v__3519732_37, v__3521540_37, v__3521542_37);
+Obj v__3521668_37= co->res;
+Obj v__3521666_37 = R[1];
+Obj v__3519839_37 = R[2];
+Obj v__3519841_37 = R[3];
+Obj v__3519840_37 = R[4];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 1, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v__3519839_37, v__3519841_37, v__3521666_37, v__3521668_37);
 return;
 }
 case 3:
 {
-Obj v__3521540_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
-Obj v__3521541_37 = PRIM_CAR(v__3519731_37);
-R[1] = v__3521540_37;
-R[2] = v__3519730_37;
-R[3] = v__3519732_37;
-R[4] = v__3519731_37;
-saveCont(co, clofun120, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3521541_37);
+Obj v__3521666_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
+Obj v__3521667_37 = PRIM_CAR(v__3519840_37);
+R[1] = v__3521666_37;
+R[2] = v__3519839_37;
+R[3] = v__3519841_37;
+R[4] = v__3519840_37;
+saveCont(co, clofun121, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3521667_37);
 return;
 }
 case 4:
 {
-Obj v__3521539_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519731_37);
+Obj v__3521665_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519840_37);
 return;
 }
 case 5:
 {
-Obj v__3521538_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "\n\n"));
+Obj v__3521664_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj v__3521535_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun118, 1, 1, v__3519730_37), v__3519731_37);
+Obj v__3521661_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 1, v__3519839_37), v__3519840_37);
 return;
 }
 case 7:
 {
-Obj v__3521534_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "static int packageID = -1;\n"));
+Obj v__3521660_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 8:
 {
-Obj v__3521533_37= co->res;
-Obj v__3519730_37 = R[1];
-Obj v__3519732_37 = R[2];
-Obj v__3519731_37 = R[3];
-R[1] = v__3519730_37;
-R[2] = v__3519732_37;
-R[3] = v__3519731_37;
-saveCont(co, clofun120, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519730_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+Obj v__3521659_37= co->res;
+Obj v__3519839_37 = R[1];
+Obj v__3519841_37 = R[2];
+Obj v__3519840_37 = R[3];
+R[1] = v__3519839_37;
+R[2] = v__3519841_37;
+R[3] = v__3519840_37;
+saveCont(co, clofun121, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
 }
 
-static void clofun119(struct Cora* co, int label, Obj *R) {
+static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519734_37 = R[1];
+Obj v__3519843_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v__3519734_37, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v__3519843_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun118(struct Cora* co, int label, Obj *R) {
+static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519733_37 = R[1];
-Obj v__3521536_37 = PRIM_CAR(v__3519733_37);
-saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3521536_37);
+Obj v__3519842_37 = R[1];
+Obj v__3521662_37 = PRIM_CAR(v__3519842_37);
+saveCont(co, clofun119, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3521662_37);
 return;
 }
 case 1:
 {
-Obj v__3521537_37= co->res;
+Obj v__3521663_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1549,742 +1552,742 @@ return;
 }
 }
 
-static void clofun117(struct Cora* co, int label, Obj *R) {
+static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519724_37 = R[1];
-Obj v__3519725_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519727_37 = R[4];
-R[1] = v__3519725_37;
-R[2] = v__3519727_37;
-R[3] = v__3519726_37;
-R[4] = v__3519724_37;
-saveCont(co, clofun117, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+Obj v__3519833_37 = R[1];
+Obj v__3519834_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519836_37 = R[4];
+R[1] = v__3519834_37;
+R[2] = v__3519836_37;
+R[3] = v__3519835_37;
+R[4] = v__3519833_37;
+saveCont(co, clofun118, 15, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3521531_37= co->res;
-Obj v__3519724_37 = R[1];
+Obj v__3521657_37= co->res;
+Obj v__3519833_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3521530_37= co->res;
-Obj v__3519724_37 = R[1];
-R[1] = v__3519724_37;
-saveCont(co, clofun117, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, ";\n"));
+Obj v__3521656_37= co->res;
+Obj v__3519833_37 = R[1];
+R[1] = v__3519833_37;
+saveCont(co, clofun118, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3521529_37= co->res;
-Obj v__3519726_37 = R[1];
-Obj v__3519724_37 = R[2];
-R[1] = v__3519724_37;
-saveCont(co, clofun117, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519724_37, v__3519726_37);
+Obj v__3521655_37= co->res;
+Obj v__3519835_37 = R[1];
+Obj v__3519833_37 = R[2];
+R[1] = v__3519833_37;
+saveCont(co, clofun118, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519833_37, v__3519835_37);
 return;
 }
 case 4:
 {
-Obj v__3521528_37= co->res;
-Obj v__3519726_37 = R[1];
-Obj v__3519724_37 = R[2];
-R[1] = v__3519726_37;
-R[2] = v__3519724_37;
-saveCont(co, clofun117, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "co->ctx.fn = "));
+Obj v__3521654_37= co->res;
+Obj v__3519835_37 = R[1];
+Obj v__3519833_37 = R[2];
+R[1] = v__3519835_37;
+R[2] = v__3519833_37;
+saveCont(co, clofun118, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v__3521527_37= co->res;
-Obj v__3519726_37 = R[1];
-Obj v__3519724_37 = R[2];
-R[1] = v__3519726_37;
-R[2] = v__3519724_37;
-saveCont(co, clofun117, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, ");\n"));
+Obj v__3521653_37= co->res;
+Obj v__3519835_37 = R[1];
+Obj v__3519833_37 = R[2];
+R[1] = v__3519835_37;
+R[2] = v__3519833_37;
+saveCont(co, clofun118, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v__3521526_37= co->res;
-Obj v__3519726_37 = R[1];
-Obj v__3519724_37 = R[2];
-R[1] = v__3519726_37;
-R[2] = v__3519724_37;
-saveCont(co, clofun117, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519724_37, v__3521526_37);
+Obj v__3521652_37= co->res;
+Obj v__3519835_37 = R[1];
+Obj v__3519833_37 = R[2];
+R[1] = v__3519835_37;
+R[2] = v__3519833_37;
+saveCont(co, clofun118, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519833_37, v__3521652_37);
 return;
 }
 case 7:
 {
-Obj v__3521525_37= co->res;
-Obj v__3519727_37 = R[1];
-Obj v__3519726_37 = R[2];
-Obj v__3519724_37 = R[3];
-R[1] = v__3519726_37;
-R[2] = v__3519724_37;
-saveCont(co, clofun117, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519727_37);
+Obj v__3521651_37= co->res;
+Obj v__3519836_37 = R[1];
+Obj v__3519835_37 = R[2];
+Obj v__3519833_37 = R[3];
+R[1] = v__3519835_37;
+R[2] = v__3519833_37;
+saveCont(co, clofun118, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519836_37);
 return;
 }
 case 8:
 {
-Obj v__3521524_37= co->res;
-Obj v__3519727_37 = R[1];
-Obj v__3519726_37 = R[2];
-Obj v__3519724_37 = R[3];
-R[1] = v__3519727_37;
-R[2] = v__3519726_37;
-R[3] = v__3519724_37;
-saveCont(co, clofun117, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "stackAlloc(co, "));
+Obj v__3521650_37= co->res;
+Obj v__3519836_37 = R[1];
+Obj v__3519835_37 = R[2];
+Obj v__3519833_37 = R[3];
+R[1] = v__3519836_37;
+R[2] = v__3519835_37;
+R[3] = v__3519833_37;
+saveCont(co, clofun118, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj v__3521523_37= co->res;
-Obj v__3519727_37 = R[1];
-Obj v__3519726_37 = R[2];
-Obj v__3519724_37 = R[3];
-R[1] = v__3519727_37;
-R[2] = v__3519726_37;
-R[3] = v__3519724_37;
-saveCont(co, clofun117, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+Obj v__3521649_37= co->res;
+Obj v__3519836_37 = R[1];
+Obj v__3519835_37 = R[2];
+Obj v__3519833_37 = R[3];
+R[1] = v__3519836_37;
+R[2] = v__3519835_37;
+R[3] = v__3519833_37;
+saveCont(co, clofun118, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj v__3521514_37= co->res;
-Obj v__3519725_37 = R[1];
-Obj v__3519727_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519724_37 = R[4];
-R[1] = v__3519727_37;
-R[2] = v__3519726_37;
-R[3] = v__3519724_37;
-saveCont(co, clofun117, 9, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun116, 2, 1, v__3519724_37), MAKE_NUMBER(0), v__3519725_37);
+Obj v__3521640_37= co->res;
+Obj v__3519834_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519833_37 = R[4];
+R[1] = v__3519836_37;
+R[2] = v__3519835_37;
+R[3] = v__3519833_37;
+saveCont(co, clofun118, 9, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun117, 2, 1, v__3519833_37), MAKE_NUMBER(0), v__3519834_37);
 return;
 }
 case 11:
 {
-Obj v__3521513_37= co->res;
-Obj v__3519725_37 = R[1];
-Obj v__3519727_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519724_37 = R[4];
-R[1] = v__3519725_37;
-R[2] = v__3519727_37;
-R[3] = v__3519726_37;
-R[4] = v__3519724_37;
-saveCont(co, clofun117, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, ");\n"));
+Obj v__3521639_37= co->res;
+Obj v__3519834_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519833_37 = R[4];
+R[1] = v__3519834_37;
+R[2] = v__3519836_37;
+R[3] = v__3519835_37;
+R[4] = v__3519833_37;
+saveCont(co, clofun118, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3521512_37= co->res;
-Obj v__3519725_37 = R[1];
-Obj v__3519727_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519724_37 = R[4];
-R[1] = v__3519725_37;
-R[2] = v__3519727_37;
-R[3] = v__3519726_37;
-R[4] = v__3519724_37;
-saveCont(co, clofun117, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519724_37, v__3521512_37);
+Obj v__3521638_37= co->res;
+Obj v__3519834_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519833_37 = R[4];
+R[1] = v__3519834_37;
+R[2] = v__3519836_37;
+R[3] = v__3519835_37;
+R[4] = v__3519833_37;
+saveCont(co, clofun118, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519833_37, v__3521638_37);
 return;
 }
 case 13:
 {
-Obj v__3521511_37= co->res;
-Obj v__3519725_37 = R[1];
-Obj v__3519727_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519724_37 = R[4];
-R[1] = v__3519725_37;
-R[2] = v__3519727_37;
-R[3] = v__3519726_37;
-R[4] = v__3519724_37;
-saveCont(co, clofun117, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519725_37);
+Obj v__3521637_37= co->res;
+Obj v__3519834_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519833_37 = R[4];
+R[1] = v__3519834_37;
+R[2] = v__3519836_37;
+R[3] = v__3519835_37;
+R[4] = v__3519833_37;
+saveCont(co, clofun118, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3519834_37);
 return;
 }
 case 14:
 {
-Obj v__3521510_37= co->res;
-Obj v__3519725_37 = R[1];
-Obj v__3519727_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519724_37 = R[4];
-R[1] = v__3519725_37;
-R[2] = v__3519727_37;
-R[3] = v__3519726_37;
-R[4] = v__3519724_37;
-saveCont(co, clofun117, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+Obj v__3521636_37= co->res;
+Obj v__3519834_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519833_37 = R[4];
+R[1] = v__3519834_37;
+R[2] = v__3519836_37;
+R[3] = v__3519835_37;
+R[4] = v__3519833_37;
+saveCont(co, clofun118, 13, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 15:
 {
-Obj v__3521509_37= co->res;
-Obj v__3519725_37 = R[1];
-Obj v__3519727_37 = R[2];
-Obj v__3519726_37 = R[3];
-Obj v__3519724_37 = R[4];
-R[1] = v__3519725_37;
-R[2] = v__3519727_37;
-R[3] = v__3519726_37;
-R[4] = v__3519724_37;
-saveCont(co, clofun117, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519724_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+Obj v__3521635_37= co->res;
+Obj v__3519834_37 = R[1];
+Obj v__3519836_37 = R[2];
+Obj v__3519835_37 = R[3];
+Obj v__3519833_37 = R[4];
+R[1] = v__3519834_37;
+R[2] = v__3519836_37;
+R[3] = v__3519835_37;
+R[4] = v__3519833_37;
+saveCont(co, clofun118, 14, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
 }
 
-static void clofun116(struct Cora* co, int label, Obj *R) {
+static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519728_37 = R[1];
-Obj v__3519729_37 = R[2];
-R[1] = v__3519729_37;
-R[2] = v__3519728_37;
-saveCont(co, clofun116, 7, R);
+Obj v__3519837_37 = R[1];
+Obj v__3519838_37 = R[2];
+R[1] = v__3519838_37;
+R[2] = v__3519837_37;
+saveCont(co, clofun117, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3521521_37= co->res;
-Obj v__3519728_37 = R[1];
-Obj v__3521522_37 = PRIM_ADD(v__3519728_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521522_37);
+Obj v__3521647_37= co->res;
+Obj v__3519837_37 = R[1];
+Obj v__3521648_37 = PRIM_ADD(v__3519837_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521648_37);
 return;
 }
 case 2:
 {
-Obj v__3521520_37= co->res;
-Obj v__3519728_37 = R[1];
-R[1] = v__3519728_37;
-saveCont(co, clofun116, 1, R);
+Obj v__3521646_37= co->res;
+Obj v__3519837_37 = R[1];
+R[1] = v__3519837_37;
+saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3521519_37= co->res;
-Obj v__3519728_37 = R[1];
-R[1] = v__3519728_37;
-saveCont(co, clofun116, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3521519_37);
+Obj v__3521645_37= co->res;
+Obj v__3519837_37 = R[1];
+R[1] = v__3519837_37;
+saveCont(co, clofun117, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3521645_37);
 return;
 }
 case 4:
 {
-Obj v__3521518_37= co->res;
-Obj v__3519728_37 = R[1];
-R[1] = v__3519728_37;
-saveCont(co, clofun116, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3521518_37);
+Obj v__3521644_37= co->res;
+Obj v__3519837_37 = R[1];
+R[1] = v__3519837_37;
+saveCont(co, clofun117, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3521644_37);
 return;
 }
 case 5:
 {
-Obj v__3521517_37= co->res;
-Obj v__3519729_37 = R[1];
-Obj v__3519728_37 = R[2];
-R[1] = v__3519728_37;
-saveCont(co, clofun116, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519729_37);
+Obj v__3521643_37= co->res;
+Obj v__3519838_37 = R[1];
+Obj v__3519837_37 = R[2];
+R[1] = v__3519837_37;
+saveCont(co, clofun117, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519838_37);
 return;
 }
 case 6:
 {
-Obj v__3521516_37= co->res;
-Obj v__3519729_37 = R[1];
-Obj v__3519728_37 = R[2];
-R[1] = v__3519729_37;
-R[2] = v__3519728_37;
-saveCont(co, clofun116, 5, R);
+Obj v__3521642_37= co->res;
+Obj v__3519838_37 = R[1];
+Obj v__3519837_37 = R[2];
+R[1] = v__3519838_37;
+R[2] = v__3519837_37;
+saveCont(co, clofun117, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3521515_37= co->res;
-Obj v__3519729_37 = R[1];
-Obj v__3519728_37 = R[2];
-R[1] = v__3519729_37;
-R[2] = v__3519728_37;
-saveCont(co, clofun116, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v__3519728_37);
+Obj v__3521641_37= co->res;
+Obj v__3519838_37 = R[1];
+Obj v__3519837_37 = R[2];
+R[1] = v__3519838_37;
+R[2] = v__3519837_37;
+saveCont(co, clofun117, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v__3519837_37);
 return;
 }
 }
 }
 
-static void clofun115(struct Cora* co, int label, Obj *R) {
+static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519715_37 = R[1];
-Obj v__3519716_37 = R[2];
-Obj v__3519717_37 = R[3];
-Obj v__3521487_37 = PRIM_CAR(v__3519716_37);
-Obj v__3520026_37 = v__3521487_37;
-R[1] = v__3519717_37;
-R[2] = v__3520026_37;
-R[3] = v__3519715_37;
-saveCont(co, clofun115, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519716_37);
+Obj v__3519824_37 = R[1];
+Obj v__3519825_37 = R[2];
+Obj v__3519826_37 = R[3];
+Obj v__3521613_37 = PRIM_CAR(v__3519825_37);
+Obj v__3520138_37 = v__3521613_37;
+R[1] = v__3519826_37;
+R[2] = v__3520138_37;
+R[3] = v__3519824_37;
+saveCont(co, clofun116, 13, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519825_37);
 return;
 }
 case 1:
 {
-Obj v__3521507_37= co->res;
-Obj v__3519715_37 = R[1];
+Obj v__3521633_37= co->res;
+Obj v__3519824_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3521506_37= co->res;
-Obj v__3519715_37 = R[1];
-R[1] = v__3519715_37;
-saveCont(co, clofun115, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "}\n"));
+Obj v__3521632_37= co->res;
+Obj v__3519824_37 = R[1];
+R[1] = v__3519824_37;
+saveCont(co, clofun116, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3521505_37= co->res;
-Obj v__3519717_37 = R[1];
-Obj v__3520026_37 = R[2];
-Obj v__3520027_37 = R[3];
-Obj v__3519715_37 = R[4];
-R[1] = v__3519715_37;
-saveCont(co, clofun115, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun114, 2, 4, v__3519717_37, v__3520026_37, v__3520027_37, v__3519715_37), MAKE_NUMBER(1), v__3521505_37);
+Obj v__3521631_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3520138_37 = R[2];
+Obj v__3520139_37 = R[3];
+Obj v__3519824_37 = R[4];
+R[1] = v__3519824_37;
+saveCont(co, clofun116, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun115, 2, 4, v__3519826_37, v__3520138_37, v__3520139_37, v__3519824_37), MAKE_NUMBER(1), v__3521631_37);
 return;
 }
 case 4:
 {
-Obj v__3521497_37= co->res;
-Obj v__3519717_37 = R[1];
-Obj v__3520026_37 = R[2];
-Obj v__3520027_37 = R[3];
-Obj v__3519715_37 = R[4];
-R[1] = v__3519717_37;
-R[2] = v__3520026_37;
-R[3] = v__3520027_37;
-R[4] = v__3519715_37;
-saveCont(co, clofun115, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3520027_37);
+Obj v__3521623_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3520138_37 = R[2];
+Obj v__3520139_37 = R[3];
+Obj v__3519824_37 = R[4];
+R[1] = v__3519826_37;
+R[2] = v__3520138_37;
+R[3] = v__3520139_37;
+R[4] = v__3519824_37;
+saveCont(co, clofun116, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3520139_37);
 return;
 }
 case 5:
 {
-Obj v__3521496_37= co->res;
-Obj v__3519717_37 = R[1];
-Obj v__3520026_37 = R[2];
-Obj v__3520027_37 = R[3];
-Obj v__3519715_37 = R[4];
-R[1] = v__3519717_37;
-R[2] = v__3520026_37;
-R[3] = v__3520027_37;
-R[4] = v__3519715_37;
-saveCont(co, clofun115, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "}\n"));
+Obj v__3521622_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3520138_37 = R[2];
+Obj v__3520139_37 = R[3];
+Obj v__3519824_37 = R[4];
+R[1] = v__3519826_37;
+R[2] = v__3520138_37;
+R[3] = v__3520139_37;
+R[4] = v__3519824_37;
+saveCont(co, clofun116, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3521495_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3520029_37 = R[2];
-Obj v__3519717_37 = R[3];
-Obj v__3520026_37 = R[4];
-Obj v__3520027_37 = R[5];
-Obj v__3519715_37 = R[6];
-R[1] = v__3519717_37;
-R[2] = v__3520026_37;
-R[3] = v__3520027_37;
-R[4] = v__3519715_37;
-saveCont(co, clofun115, 5, R);
-Obj __args[5] = {v__3519717_37, v__3520026_37, v__3520028_37, v__3519715_37, v__3520029_37};
+Obj v__3521621_37= co->res;
+Obj v__3520140_37 = R[1];
+Obj v__3520141_37 = R[2];
+Obj v__3519826_37 = R[3];
+Obj v__3520138_37 = R[4];
+Obj v__3520139_37 = R[5];
+Obj v__3519824_37 = R[6];
+R[1] = v__3519826_37;
+R[2] = v__3520138_37;
+R[3] = v__3520139_37;
+R[4] = v__3519824_37;
+saveCont(co, clofun116, 5, R);
+Obj __args[5] = {v__3519826_37, v__3520138_37, v__3520140_37, v__3519824_37, v__3520141_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3521494_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3520029_37 = R[2];
-Obj v__3519717_37 = R[3];
-Obj v__3520026_37 = R[4];
-Obj v__3520027_37 = R[5];
-Obj v__3519715_37 = R[6];
-R[1] = v__3520028_37;
-R[2] = v__3520029_37;
-R[3] = v__3519717_37;
-R[4] = v__3520026_37;
-R[5] = v__3520027_37;
-R[6] = v__3519715_37;
-saveCont(co, clofun115, 6, R);
-Obj __args[5] = {v__3519717_37, v__3520026_37, Nil, v__3519715_37, v__3520028_37};
+Obj v__3521620_37= co->res;
+Obj v__3520140_37 = R[1];
+Obj v__3520141_37 = R[2];
+Obj v__3519826_37 = R[3];
+Obj v__3520138_37 = R[4];
+Obj v__3520139_37 = R[5];
+Obj v__3519824_37 = R[6];
+R[1] = v__3520140_37;
+R[2] = v__3520141_37;
+R[3] = v__3519826_37;
+R[4] = v__3520138_37;
+R[5] = v__3520139_37;
+R[6] = v__3519824_37;
+saveCont(co, clofun116, 6, R);
+Obj __args[5] = {v__3519826_37, v__3520138_37, Nil, v__3519824_37, v__3520140_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3521493_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3520029_37 = R[2];
-Obj v__3519717_37 = R[3];
-Obj v__3520026_37 = R[4];
-Obj v__3520027_37 = R[5];
-Obj v__3519715_37 = R[6];
-R[1] = v__3520028_37;
-R[2] = v__3520029_37;
-R[3] = v__3519717_37;
-R[4] = v__3520026_37;
-R[5] = v__3520027_37;
-R[6] = v__3519715_37;
-saveCont(co, clofun115, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, "case 0:\n{\n"));
+Obj v__3521619_37= co->res;
+Obj v__3520140_37 = R[1];
+Obj v__3520141_37 = R[2];
+Obj v__3519826_37 = R[3];
+Obj v__3520138_37 = R[4];
+Obj v__3520139_37 = R[5];
+Obj v__3519824_37 = R[6];
+R[1] = v__3520140_37;
+R[2] = v__3520141_37;
+R[3] = v__3519826_37;
+R[4] = v__3520138_37;
+R[5] = v__3520139_37;
+R[6] = v__3519824_37;
+saveCont(co, clofun116, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3521492_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3520029_37 = R[2];
-Obj v__3519717_37 = R[3];
-Obj v__3520026_37 = R[4];
-Obj v__3520027_37 = R[5];
-Obj v__3519715_37 = R[6];
-R[1] = v__3520028_37;
-R[2] = v__3520029_37;
-R[3] = v__3519717_37;
-R[4] = v__3520026_37;
-R[5] = v__3520027_37;
-R[6] = v__3519715_37;
-saveCont(co, clofun115, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, " switch (label) {\n"));
+Obj v__3521618_37= co->res;
+Obj v__3520140_37 = R[1];
+Obj v__3520141_37 = R[2];
+Obj v__3519826_37 = R[3];
+Obj v__3520138_37 = R[4];
+Obj v__3520139_37 = R[5];
+Obj v__3519824_37 = R[6];
+R[1] = v__3520140_37;
+R[2] = v__3520141_37;
+R[3] = v__3519826_37;
+R[4] = v__3520138_37;
+R[5] = v__3520139_37;
+R[6] = v__3519824_37;
+saveCont(co, clofun116, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3521491_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3520029_37 = R[2];
-Obj v__3519717_37 = R[3];
-Obj v__3520026_37 = R[4];
-Obj v__3520027_37 = R[5];
-Obj v__3519715_37 = R[6];
-R[1] = v__3520028_37;
-R[2] = v__3520029_37;
-R[3] = v__3519717_37;
-R[4] = v__3520026_37;
-R[5] = v__3520027_37;
-R[6] = v__3519715_37;
-saveCont(co, clofun115, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519715_37, makeCString(co->gc, " {\n"));
+Obj v__3521617_37= co->res;
+Obj v__3520140_37 = R[1];
+Obj v__3520141_37 = R[2];
+Obj v__3519826_37 = R[3];
+Obj v__3520138_37 = R[4];
+Obj v__3520139_37 = R[5];
+Obj v__3519824_37 = R[6];
+R[1] = v__3520140_37;
+R[2] = v__3520141_37;
+R[3] = v__3519826_37;
+R[4] = v__3520138_37;
+R[5] = v__3520139_37;
+R[6] = v__3519824_37;
+saveCont(co, clofun116, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3521490_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3519717_37 = R[2];
-Obj v__3520026_37 = R[3];
-Obj v__3520027_37 = R[4];
-Obj v__3519715_37 = R[5];
-Obj v__3520029_37 = v__3521490_37;
-R[1] = v__3520028_37;
-R[2] = v__3520029_37;
-R[3] = v__3519717_37;
-R[4] = v__3520026_37;
-R[5] = v__3520027_37;
-R[6] = v__3519715_37;
-saveCont(co, clofun115, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v__3519715_37, v__3520026_37);
+Obj v__3521616_37= co->res;
+Obj v__3520140_37 = R[1];
+Obj v__3519826_37 = R[2];
+Obj v__3520138_37 = R[3];
+Obj v__3520139_37 = R[4];
+Obj v__3519824_37 = R[5];
+Obj v__3520141_37 = v__3521616_37;
+R[1] = v__3520140_37;
+R[2] = v__3520141_37;
+R[3] = v__3519826_37;
+R[4] = v__3520138_37;
+R[5] = v__3520139_37;
+R[6] = v__3519824_37;
+saveCont(co, clofun116, 10, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v__3519824_37, v__3520138_37);
 return;
 }
 case 12:
 {
-Obj v__3521489_37= co->res;
-Obj v__3519717_37 = R[1];
-Obj v__3520026_37 = R[2];
-Obj v__3520027_37 = R[3];
-Obj v__3519715_37 = R[4];
-Obj v__3520028_37 = v__3521489_37;
-R[1] = v__3520028_37;
-R[2] = v__3519717_37;
-R[3] = v__3520026_37;
-R[4] = v__3520027_37;
-R[5] = v__3519715_37;
-saveCont(co, clofun115, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3520027_37);
+Obj v__3521615_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3520138_37 = R[2];
+Obj v__3520139_37 = R[3];
+Obj v__3519824_37 = R[4];
+Obj v__3520140_37 = v__3521615_37;
+R[1] = v__3520140_37;
+R[2] = v__3519826_37;
+R[3] = v__3520138_37;
+R[4] = v__3520139_37;
+R[5] = v__3519824_37;
+saveCont(co, clofun116, 11, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3520139_37);
 return;
 }
 case 13:
 {
-Obj v__3521488_37= co->res;
-Obj v__3519717_37 = R[1];
-Obj v__3520026_37 = R[2];
-Obj v__3519715_37 = R[3];
-Obj v__3520027_37 = v__3521488_37;
-R[1] = v__3519717_37;
-R[2] = v__3520026_37;
-R[3] = v__3520027_37;
-R[4] = v__3519715_37;
-saveCont(co, clofun115, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3520027_37);
+Obj v__3521614_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3520138_37 = R[2];
+Obj v__3519824_37 = R[3];
+Obj v__3520139_37 = v__3521614_37;
+R[1] = v__3519826_37;
+R[2] = v__3520138_37;
+R[3] = v__3520139_37;
+R[4] = v__3519824_37;
+saveCont(co, clofun116, 12, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3520139_37);
 return;
 }
 }
 }
 
-static void clofun114(struct Cora* co, int label, Obj *R) {
+static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519722_37 = R[1];
-Obj v__3519723_37 = R[2];
-R[1] = v__3519723_37;
-R[2] = v__3519722_37;
-saveCont(co, clofun114, 6, R);
+Obj v__3519831_37 = R[1];
+Obj v__3519832_37 = R[2];
+R[1] = v__3519832_37;
+R[2] = v__3519831_37;
+saveCont(co, clofun115, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3521503_37= co->res;
-Obj v__3519722_37 = R[1];
-Obj v__3521504_37 = PRIM_ADD(v__3519722_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521504_37);
+Obj v__3521629_37= co->res;
+Obj v__3519831_37 = R[1];
+Obj v__3521630_37 = PRIM_ADD(v__3519831_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521630_37);
 return;
 }
 case 2:
 {
-Obj v__3521502_37= co->res;
-Obj v__3519722_37 = R[1];
-R[1] = v__3519722_37;
-saveCont(co, clofun114, 1, R);
+Obj v__3521628_37= co->res;
+Obj v__3519831_37 = R[1];
+R[1] = v__3519831_37;
+saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3521501_37= co->res;
-Obj v__3519723_37 = R[1];
-Obj v__3519722_37 = R[2];
-R[1] = v__3519722_37;
-saveCont(co, clofun114, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521501_37, closureRef(R[0], 3), v__3519723_37};
+Obj v__3521627_37= co->res;
+Obj v__3519832_37 = R[1];
+Obj v__3519831_37 = R[2];
+R[1] = v__3519831_37;
+saveCont(co, clofun115, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521627_37, closureRef(R[0], 3), v__3519832_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3521500_37= co->res;
-Obj v__3519723_37 = R[1];
-Obj v__3519722_37 = R[2];
-R[1] = v__3519723_37;
-R[2] = v__3519722_37;
-saveCont(co, clofun114, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), closureRef(R[0], 2));
+Obj v__3521626_37= co->res;
+Obj v__3519832_37 = R[1];
+Obj v__3519831_37 = R[2];
+R[1] = v__3519832_37;
+R[2] = v__3519831_37;
+saveCont(co, clofun115, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3521499_37= co->res;
-Obj v__3519723_37 = R[1];
-Obj v__3519722_37 = R[2];
-R[1] = v__3519723_37;
-R[2] = v__3519722_37;
-saveCont(co, clofun114, 4, R);
+Obj v__3521625_37= co->res;
+Obj v__3519832_37 = R[1];
+Obj v__3519831_37 = R[2];
+R[1] = v__3519832_37;
+R[2] = v__3519831_37;
+saveCont(co, clofun115, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3521498_37= co->res;
-Obj v__3519723_37 = R[1];
-Obj v__3519722_37 = R[2];
-R[1] = v__3519723_37;
-R[2] = v__3519722_37;
-saveCont(co, clofun114, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519722_37);
+Obj v__3521624_37= co->res;
+Obj v__3519832_37 = R[1];
+Obj v__3519831_37 = R[2];
+R[1] = v__3519832_37;
+R[2] = v__3519831_37;
+saveCont(co, clofun115, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519831_37);
 return;
 }
 }
 }
 
-static void clofun113(struct Cora* co, int label, Obj *R) {
+static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519709_37 = R[1];
-Obj v__3519710_37 = R[2];
-Obj v__3521481_37 = PRIM_EQ(Nil, v__3519710_37);
-if (True == v__3521481_37) {
+Obj v__3519818_37 = R[1];
+Obj v__3519819_37 = R[2];
+Obj v__3521607_37 = PRIM_EQ(Nil, v__3519819_37);
+if (True == v__3521607_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521482_37 = PRIM_ISCONS(v__3519710_37);
-if (True == v__3521482_37) {
-Obj v__3521483_37 = PRIM_CAR(v__3519710_37);
-Obj v__3520024_37 = v__3521483_37;
-Obj v__3521484_37 = PRIM_CDR(v__3519710_37);
-Obj v__3520025_37 = v__3521484_37;
-R[1] = v__3519709_37;
-R[2] = v__3520025_37;
-saveCont(co, clofun113, 1, R);
-coraCall1(co, v__3519709_37, v__3520024_37);
+Obj v__3521608_37 = PRIM_ISCONS(v__3519819_37);
+if (True == v__3521608_37) {
+Obj v__3521609_37 = PRIM_CAR(v__3519819_37);
+Obj v__3520136_37 = v__3521609_37;
+Obj v__3521610_37 = PRIM_CDR(v__3519819_37);
+Obj v__3520137_37 = v__3521610_37;
+R[1] = v__3519818_37;
+R[2] = v__3520137_37;
+saveCont(co, clofun114, 1, R);
+coraCall1(co, v__3519818_37, v__3520136_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521485_37= co->res;
-Obj v__3519709_37 = R[1];
-Obj v__3520025_37 = R[2];
+Obj v__3521611_37= co->res;
+Obj v__3519818_37 = R[1];
+Obj v__3520137_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3519709_37, v__3520025_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3519818_37, v__3520137_37);
 return;
 }
 }
 }
 
-static void clofun112(struct Cora* co, int label, Obj *R) {
+static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519707_37 = R[1];
-Obj v__3519708_37 = R[2];
-R[1] = v__3519708_37;
-saveCont(co, clofun112, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519707_37);
+Obj v__3519816_37 = R[1];
+Obj v__3519817_37 = R[2];
+R[1] = v__3519817_37;
+saveCont(co, clofun113, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519816_37);
 return;
 }
 case 1:
 {
-Obj v__3521479_37= co->res;
+Obj v__3521605_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3521479_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3521605_37);
 return;
 }
 case 2:
 {
-Obj v__3521478_37= co->res;
-saveCont(co, clofun112, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3521478_37);
+Obj v__3521604_37= co->res;
+saveCont(co, clofun113, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3521604_37);
 return;
 }
 case 3:
 {
-Obj v__3521477_37= co->res;
-saveCont(co, clofun112, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521477_37);
+Obj v__3521603_37= co->res;
+saveCont(co, clofun113, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521603_37);
 return;
 }
 case 4:
 {
-Obj v__3521476_37= co->res;
-saveCont(co, clofun112, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521476_37);
+Obj v__3521602_37= co->res;
+saveCont(co, clofun113, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521602_37);
 return;
 }
 case 5:
 {
-Obj v__3521475_37= co->res;
-Obj v__3519708_37 = R[1];
-saveCont(co, clofun112, 4, R);
-coraCall1(co, v__3521475_37, v__3519708_37);
+Obj v__3521601_37= co->res;
+Obj v__3519817_37 = R[1];
+saveCont(co, clofun113, 4, R);
+coraCall1(co, v__3521601_37, v__3519817_37);
 return;
 }
 }
 }
 
-static void clofun111(struct Cora* co, int label, Obj *R) {
+static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519704_37 = R[1];
-R[1] = v__3519704_37;
-saveCont(co, clofun111, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519704_37);
+Obj v__3519813_37 = R[1];
+R[1] = v__3519813_37;
+saveCont(co, clofun112, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519813_37);
 return;
 }
 case 1:
 {
-Obj v__3521473_37= co->res;
-Obj v__3520022_37 = R[1];
-Obj v__3520023_37 = v__3521473_37;
+Obj v__3521599_37= co->res;
+Obj v__3520134_37 = R[1];
+Obj v__3520135_37 = v__3521599_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3520022_37, v__3520023_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3520134_37, v__3520135_37);
 return;
 }
 case 2:
 {
-Obj v__3521472_37= co->res;
-Obj v__3519704_37 = R[1];
-Obj v__3520022_37 = v__3521472_37;
-R[1] = v__3520022_37;
-saveCont(co, clofun111, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v__3519704_37);
+Obj v__3521598_37= co->res;
+Obj v__3519813_37 = R[1];
+Obj v__3520134_37 = v__3521598_37;
+R[1] = v__3520134_37;
+saveCont(co, clofun112, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v__3519813_37);
 return;
 }
 }
 }
 
-static void clofun110(struct Cora* co, int label, Obj *R) {
+static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519698_37 = R[1];
-Obj v__3519699_37 = R[2];
-Obj v__3521465_37 = PRIM_EQ(Nil, v__3519699_37);
-if (True == v__3521465_37) {
-coraReturn(co, v__3519698_37);
+Obj v__3519807_37 = R[1];
+Obj v__3519808_37 = R[2];
+Obj v__3521591_37 = PRIM_EQ(Nil, v__3519808_37);
+if (True == v__3521591_37) {
+coraReturn(co, v__3519807_37);
 return;
 } else {
-Obj v__3521466_37 = PRIM_ISCONS(v__3519699_37);
-if (True == v__3521466_37) {
-Obj v__3521467_37 = PRIM_CAR(v__3519699_37);
-Obj v__3520020_37 = v__3521467_37;
-Obj v__3521468_37 = PRIM_CDR(v__3519699_37);
-Obj v__3520021_37 = v__3521468_37;
-Obj v__3521469_37 = makeCons(co->gc, v__3519698_37, Nil);
-Obj v__3521470_37 = makeCons(co->gc, v__3520020_37, v__3521469_37);
+Obj v__3521592_37 = PRIM_ISCONS(v__3519808_37);
+if (True == v__3521592_37) {
+Obj v__3521593_37 = PRIM_CAR(v__3519808_37);
+Obj v__3520132_37 = v__3521593_37;
+Obj v__3521594_37 = PRIM_CDR(v__3519808_37);
+Obj v__3520133_37 = v__3521594_37;
+Obj v__3521595_37 = makeCons(co->gc, v__3519807_37, Nil);
+Obj v__3521596_37 = makeCons(co->gc, v__3520132_37, v__3521595_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3521470_37, v__3520021_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3521596_37, v__3520133_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -2292,776 +2295,776 @@ return;
 }
 }
 
-static void clofun109(struct Cora* co, int label, Obj *R) {
+static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519694_37 = R[1];
-R[1] = v__3519694_37;
-saveCont(co, clofun109, 6, R);
+Obj v__3519803_37 = R[1];
+R[1] = v__3519803_37;
+saveCont(co, clofun110, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3521463_37= co->res;
-Obj v__3520017_37 = R[1];
+Obj v__3521589_37= co->res;
+Obj v__3520129_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3520017_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3520129_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3521462_37= co->res;
-Obj v__3520017_37 = R[1];
-Obj v__3520019_37 = v__3521462_37;
-R[1] = v__3520017_37;
-saveCont(co, clofun109, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3520017_37, v__3520019_37);
+Obj v__3521588_37= co->res;
+Obj v__3520129_37 = R[1];
+Obj v__3520131_37 = v__3521588_37;
+R[1] = v__3520129_37;
+saveCont(co, clofun110, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3520129_37, v__3520131_37);
 return;
 }
 case 3:
 {
-Obj v__3521461_37= co->res;
-Obj v__3520017_37 = R[1];
-Obj v__3520018_37 = v__3521461_37;
-R[1] = v__3520017_37;
-saveCont(co, clofun109, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3520018_37);
+Obj v__3521587_37= co->res;
+Obj v__3520129_37 = R[1];
+Obj v__3520130_37 = v__3521587_37;
+R[1] = v__3520129_37;
+saveCont(co, clofun110, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3520130_37);
 return;
 }
 case 4:
 {
-Obj v__3521460_37= co->res;
-Obj v__3519694_37 = R[1];
-Obj v__3520017_37 = R[2];
-R[1] = v__3520017_37;
-saveCont(co, clofun109, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3520017_37, v__3519694_37);
+Obj v__3521586_37= co->res;
+Obj v__3519803_37 = R[1];
+Obj v__3520129_37 = R[2];
+R[1] = v__3520129_37;
+saveCont(co, clofun110, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3520129_37, v__3519803_37);
 return;
 }
 case 5:
 {
-Obj v__3521459_37= co->res;
-Obj v__3519694_37 = R[1];
-Obj v__3520017_37 = R[2];
-R[1] = v__3519694_37;
-R[2] = v__3520017_37;
-saveCont(co, clofun109, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520017_37, MAKE_NUMBER(1), Nil);
+Obj v__3521585_37= co->res;
+Obj v__3519803_37 = R[1];
+Obj v__3520129_37 = R[2];
+R[1] = v__3519803_37;
+R[2] = v__3520129_37;
+saveCont(co, clofun110, 4, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520129_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3521458_37= co->res;
-Obj v__3519694_37 = R[1];
-Obj v__3520017_37 = v__3521458_37;
-R[1] = v__3519694_37;
-R[2] = v__3520017_37;
-saveCont(co, clofun109, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520017_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+Obj v__3521584_37= co->res;
+Obj v__3519803_37 = R[1];
+Obj v__3520129_37 = v__3521584_37;
+R[1] = v__3519803_37;
+R[2] = v__3520129_37;
+saveCont(co, clofun110, 5, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520129_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun108(struct Cora* co, int label, Obj *R) {
+static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519693_37 = R[1];
+Obj v__3519802_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v__3519693_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v__3519802_37);
 return;
 }
 }
 }
 
-static void clofun107(struct Cora* co, int label, Obj *R) {
+static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519692_37 = R[1];
+Obj v__3519801_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519692_37, globalRef(co, getBinding(co, packageID, 70)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3519801_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 }
 }
 
-static void clofun106(struct Cora* co, int label, Obj *R) {
+static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519691_37 = R[1];
+Obj v__3519800_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), Nil, v__3519691_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), Nil, v__3519800_37);
 return;
 }
 }
 }
 
-static void clofun105(struct Cora* co, int label, Obj *R) {
+static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519689_37 = R[1];
-Obj v__3519690_37 = R[2];
+Obj v__3519798_37 = R[1];
+Obj v__3519799_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), Nil, v__3519689_37, v__3519690_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), Nil, v__3519798_37, v__3519799_37);
 return;
 }
 }
 }
 
-static void clofun104(struct Cora* co, int label, Obj *R) {
+static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519687_37 = R[1];
-Obj v__3519688_37 = R[2];
-R[1] = v__3519688_37;
-R[2] = v__3519687_37;
-saveCont(co, clofun104, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519687_37, makeCString(co->gc, "static void "));
+Obj v__3519796_37 = R[1];
+Obj v__3519797_37 = R[2];
+R[1] = v__3519797_37;
+R[2] = v__3519796_37;
+saveCont(co, clofun105, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519796_37, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3521452_37= co->res;
-Obj v__3519687_37 = R[1];
+Obj v__3521578_37= co->res;
+Obj v__3519796_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519687_37, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519796_37, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521451_37= co->res;
-Obj v__3519687_37 = R[1];
-R[1] = v__3519687_37;
-saveCont(co, clofun104, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519687_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+Obj v__3521577_37= co->res;
+Obj v__3519796_37 = R[1];
+R[1] = v__3519796_37;
+saveCont(co, clofun105, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519796_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3521450_37= co->res;
-Obj v__3519688_37 = R[1];
-Obj v__3519687_37 = R[2];
-R[1] = v__3519687_37;
-saveCont(co, clofun104, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519687_37, v__3519688_37);
+Obj v__3521576_37= co->res;
+Obj v__3519797_37 = R[1];
+Obj v__3519796_37 = R[2];
+R[1] = v__3519796_37;
+saveCont(co, clofun105, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519796_37, v__3519797_37);
 return;
 }
 }
 }
 
-static void clofun103(struct Cora* co, int label, Obj *R) {
+static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519685_37 = R[1];
-Obj v__3519686_37 = R[2];
-R[1] = v__3519685_37;
-R[2] = v__3519686_37;
-saveCont(co, clofun103, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519685_37, makeCString(co->gc, "clofun"));
+Obj v__3519794_37 = R[1];
+Obj v__3519795_37 = R[2];
+R[1] = v__3519794_37;
+R[2] = v__3519795_37;
+saveCont(co, clofun104, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519794_37, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3521448_37= co->res;
-Obj v__3519685_37 = R[1];
-Obj v__3519686_37 = R[2];
+Obj v__3521574_37= co->res;
+Obj v__3519794_37 = R[1];
+Obj v__3519795_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519685_37, v__3519686_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519794_37, v__3519795_37);
 return;
 }
 }
 }
 
-static void clofun102(struct Cora* co, int label, Obj *R) {
+static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519676_37 = R[1];
-Obj v__3519677_37 = R[2];
-Obj v__3519678_37 = R[3];
-Obj v__3519679_37 = R[4];
-Obj v__3519680_37 = R[5];
-Obj v__3520013_37 = makeNative(co->gc, 1, clofun101, 0, 0);
-Obj v__3521426_37 = PRIM_ISCONS(v__3519680_37);
-if (True == v__3521426_37) {
-Obj v__3521427_37 = PRIM_CAR(v__3519680_37);
-Obj v__3521428_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3521427_37);
-if (True == v__3521428_37) {
-Obj v__3521429_37 = PRIM_CDR(v__3519680_37);
-Obj v__3521430_37 = PRIM_ISCONS(v__3521429_37);
-if (True == v__3521430_37) {
-Obj v__3521431_37 = PRIM_CDR(v__3519680_37);
-Obj v__3521432_37 = PRIM_CAR(v__3521431_37);
-Obj v__3520014_37 = v__3521432_37;
-Obj v__3521433_37 = PRIM_CDR(v__3519680_37);
-Obj v__3521434_37 = PRIM_CDR(v__3521433_37);
-Obj v__3521435_37 = PRIM_ISCONS(v__3521434_37);
-if (True == v__3521435_37) {
-Obj v__3521436_37 = PRIM_CDR(v__3519680_37);
-Obj v__3521437_37 = PRIM_CDR(v__3521436_37);
-Obj v__3521438_37 = PRIM_CAR(v__3521437_37);
-Obj v__3520015_37 = v__3521438_37;
-Obj v__3521439_37 = PRIM_CDR(v__3519680_37);
-Obj v__3521440_37 = PRIM_CDR(v__3521439_37);
-Obj v__3521441_37 = PRIM_CDR(v__3521440_37);
-Obj v__3520016_37 = v__3521441_37;
-R[1] = v__3520014_37;
-R[2] = v__3520016_37;
-R[3] = v__3519676_37;
-R[4] = v__3519677_37;
-R[5] = v__3519678_37;
-R[6] = v__3519679_37;
-R[7] = v__3520015_37;
-saveCont(co, clofun102, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519679_37, makeCString(co->gc, "Obj "));
+Obj v__3519785_37 = R[1];
+Obj v__3519786_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3519788_37 = R[4];
+Obj v__3519789_37 = R[5];
+Obj v__3520125_37 = makeNative(co->gc, 1, clofun102, 0, 0);
+Obj v__3521552_37 = PRIM_ISCONS(v__3519789_37);
+if (True == v__3521552_37) {
+Obj v__3521553_37 = PRIM_CAR(v__3519789_37);
+Obj v__3521554_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3521553_37);
+if (True == v__3521554_37) {
+Obj v__3521555_37 = PRIM_CDR(v__3519789_37);
+Obj v__3521556_37 = PRIM_ISCONS(v__3521555_37);
+if (True == v__3521556_37) {
+Obj v__3521557_37 = PRIM_CDR(v__3519789_37);
+Obj v__3521558_37 = PRIM_CAR(v__3521557_37);
+Obj v__3520126_37 = v__3521558_37;
+Obj v__3521559_37 = PRIM_CDR(v__3519789_37);
+Obj v__3521560_37 = PRIM_CDR(v__3521559_37);
+Obj v__3521561_37 = PRIM_ISCONS(v__3521560_37);
+if (True == v__3521561_37) {
+Obj v__3521562_37 = PRIM_CDR(v__3519789_37);
+Obj v__3521563_37 = PRIM_CDR(v__3521562_37);
+Obj v__3521564_37 = PRIM_CAR(v__3521563_37);
+Obj v__3520127_37 = v__3521564_37;
+Obj v__3521565_37 = PRIM_CDR(v__3519789_37);
+Obj v__3521566_37 = PRIM_CDR(v__3521565_37);
+Obj v__3521567_37 = PRIM_CDR(v__3521566_37);
+Obj v__3520128_37 = v__3521567_37;
+R[1] = v__3520126_37;
+R[2] = v__3520128_37;
+R[3] = v__3519785_37;
+R[4] = v__3519786_37;
+R[5] = v__3519787_37;
+R[6] = v__3519788_37;
+R[7] = v__3520127_37;
+saveCont(co, clofun103, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519788_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520013_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520013_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520013_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520013_37);
+coraCall0(co, v__3520125_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521446_37= co->res;
-Obj v__3519676_37 = R[1];
-Obj v__3519677_37 = R[2];
-Obj v__3519678_37 = R[3];
-Obj v__3519679_37 = R[4];
-Obj v__3520015_37 = R[5];
+Obj v__3521572_37= co->res;
+Obj v__3519785_37 = R[1];
+Obj v__3519786_37 = R[2];
+Obj v__3519787_37 = R[3];
+Obj v__3519788_37 = R[4];
+Obj v__3520127_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3519676_37, v__3519677_37, v__3519678_37, v__3519679_37, v__3520015_37};
+Obj __args[5] = {v__3519785_37, v__3519786_37, v__3519787_37, v__3519788_37, v__3520127_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3521445_37= co->res;
-Obj v__3520016_37 = R[1];
-Obj v__3519676_37 = R[2];
-Obj v__3519677_37 = R[3];
-Obj v__3519678_37 = R[4];
-Obj v__3519679_37 = R[5];
-Obj v__3520015_37 = R[6];
-R[1] = v__3519676_37;
-R[2] = v__3519677_37;
-R[3] = v__3519678_37;
-R[4] = v__3519679_37;
-R[5] = v__3520015_37;
-saveCont(co, clofun102, 1, R);
-Obj __args[5] = {v__3519676_37, v__3519677_37, v__3519678_37, v__3519679_37, v__3520016_37};
+Obj v__3521571_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3519785_37 = R[2];
+Obj v__3519786_37 = R[3];
+Obj v__3519787_37 = R[4];
+Obj v__3519788_37 = R[5];
+Obj v__3520127_37 = R[6];
+R[1] = v__3519785_37;
+R[2] = v__3519786_37;
+R[3] = v__3519787_37;
+R[4] = v__3519788_37;
+R[5] = v__3520127_37;
+saveCont(co, clofun103, 1, R);
+Obj __args[5] = {v__3519785_37, v__3519786_37, v__3519787_37, v__3519788_37, v__3520128_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521444_37= co->res;
-Obj v__3520016_37 = R[1];
-Obj v__3519676_37 = R[2];
-Obj v__3519677_37 = R[3];
-Obj v__3519678_37 = R[4];
-Obj v__3519679_37 = R[5];
-Obj v__3520015_37 = R[6];
-R[1] = v__3520016_37;
-R[2] = v__3519676_37;
-R[3] = v__3519677_37;
-R[4] = v__3519678_37;
-R[5] = v__3519679_37;
-R[6] = v__3520015_37;
-saveCont(co, clofun102, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519679_37, makeCString(co->gc, "= co->res;\n"));
+Obj v__3521570_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3519785_37 = R[2];
+Obj v__3519786_37 = R[3];
+Obj v__3519787_37 = R[4];
+Obj v__3519788_37 = R[5];
+Obj v__3520127_37 = R[6];
+R[1] = v__3520128_37;
+R[2] = v__3519785_37;
+R[3] = v__3519786_37;
+R[4] = v__3519787_37;
+R[5] = v__3519788_37;
+R[6] = v__3520127_37;
+saveCont(co, clofun103, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519788_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3521442_37= co->res;
-Obj v__3520014_37 = R[1];
-Obj v__3520016_37 = R[2];
-Obj v__3519676_37 = R[3];
-Obj v__3519677_37 = R[4];
-Obj v__3519678_37 = R[5];
-Obj v__3519679_37 = R[6];
-Obj v__3520015_37 = R[7];
-Obj v__3521443_37 = PRIM_CAR(v__3520014_37);
-R[1] = v__3520016_37;
-R[2] = v__3519676_37;
-R[3] = v__3519677_37;
-R[4] = v__3519678_37;
-R[5] = v__3519679_37;
-R[6] = v__3520015_37;
-saveCont(co, clofun102, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519679_37, v__3521443_37);
+Obj v__3521568_37= co->res;
+Obj v__3520126_37 = R[1];
+Obj v__3520128_37 = R[2];
+Obj v__3519785_37 = R[3];
+Obj v__3519786_37 = R[4];
+Obj v__3519787_37 = R[5];
+Obj v__3519788_37 = R[6];
+Obj v__3520127_37 = R[7];
+Obj v__3521569_37 = PRIM_CAR(v__3520126_37);
+R[1] = v__3520128_37;
+R[2] = v__3519785_37;
+R[3] = v__3519786_37;
+R[4] = v__3519787_37;
+R[5] = v__3519788_37;
+R[6] = v__3520127_37;
+saveCont(co, clofun103, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519788_37, v__3521569_37);
 return;
 }
 }
 }
 
-static void clofun101(struct Cora* co, int label, Obj *R) {
+static void clofun102(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 
-static void clofun100(struct Cora* co, int label, Obj *R) {
+static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519665_37 = R[1];
-Obj v__3519666_37 = R[2];
-Obj v__3519667_37 = R[3];
-Obj v__3519668_37 = R[4];
-Obj v__3519669_37 = R[5];
-Obj v__3521412_37 = primGenSym(co);
-Obj v__3520010_37 = v__3521412_37;
-Obj v__3521423_37 = primSet(co, v__3520010_37, makeNative(co->gc, 2, clofun99, 1, 5, v__3519665_37, v__3519666_37, v__3519667_37, v__3519668_37, v__3520010_37));
-R[1] = v__3519669_37;
-saveCont(co, clofun100, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520010_37);
+Obj v__3519774_37 = R[1];
+Obj v__3519775_37 = R[2];
+Obj v__3519776_37 = R[3];
+Obj v__3519777_37 = R[4];
+Obj v__3519778_37 = R[5];
+Obj v__3521538_37 = primGenSym(co);
+Obj v__3520122_37 = v__3521538_37;
+Obj v__3521549_37 = primSet(co, v__3520122_37, makeNative(co->gc, 2, clofun100, 1, 5, v__3519774_37, v__3519775_37, v__3519776_37, v__3519777_37, v__3520122_37));
+R[1] = v__3519778_37;
+saveCont(co, clofun101, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520122_37);
 return;
 }
 case 1:
 {
-Obj v__3521424_37= co->res;
-Obj v__3519669_37 = R[1];
+Obj v__3521550_37= co->res;
+Obj v__3519778_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521424_37, v__3519669_37);
+coraCall1(co, v__3521550_37, v__3519778_37);
 return;
 }
 }
 }
 
-static void clofun99(struct Cora* co, int label, Obj *R) {
+static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519671_37 = R[1];
-Obj v__3521413_37 = PRIM_EQ(Nil, v__3519671_37);
-if (True == v__3521413_37) {
+Obj v__3519780_37 = R[1];
+Obj v__3521539_37 = PRIM_EQ(Nil, v__3519780_37);
+if (True == v__3521539_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521414_37 = PRIM_ISCONS(v__3519671_37);
-if (True == v__3521414_37) {
-Obj v__3521415_37 = PRIM_CAR(v__3519671_37);
-Obj v__3520011_37 = v__3521415_37;
-Obj v__3521416_37 = PRIM_CDR(v__3519671_37);
-Obj v__3520012_37 = v__3521416_37;
-R[1] = v__3520012_37;
-saveCont(co, clofun99, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3520011_37};
+Obj v__3521540_37 = PRIM_ISCONS(v__3519780_37);
+if (True == v__3521540_37) {
+Obj v__3521541_37 = PRIM_CAR(v__3519780_37);
+Obj v__3520123_37 = v__3521541_37;
+Obj v__3521542_37 = PRIM_CDR(v__3519780_37);
+Obj v__3520124_37 = v__3521542_37;
+R[1] = v__3520124_37;
+saveCont(co, clofun100, 5, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3520123_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521421_37= co->res;
-Obj v__3520012_37 = R[1];
+Obj v__3521547_37= co->res;
+Obj v__3520124_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521421_37, v__3520012_37);
+coraCall1(co, v__3521547_37, v__3520124_37);
 return;
 }
 case 2:
 {
-Obj v__3521420_37= co->res;
-Obj v__3520012_37 = R[1];
-R[1] = v__3520012_37;
-saveCont(co, clofun99, 1, R);
+Obj v__3521546_37= co->res;
+Obj v__3520124_37 = R[1];
+R[1] = v__3520124_37;
+saveCont(co, clofun100, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521422_37= co->res;
-Obj v__3520012_37 = R[1];
+Obj v__3521548_37= co->res;
+Obj v__3520124_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521422_37, v__3520012_37);
+coraCall1(co, v__3521548_37, v__3520124_37);
 return;
 }
 case 4:
 {
-Obj v__3521418_37= co->res;
-Obj v__3520012_37 = R[1];
-Obj v__3521419_37 = primNot(v__3521418_37);
-if (True == v__3521419_37) {
-R[1] = v__3520012_37;
-saveCont(co, clofun99, 2, R);
+Obj v__3521544_37= co->res;
+Obj v__3520124_37 = R[1];
+Obj v__3521545_37 = primNot(v__3521544_37);
+if (True == v__3521545_37) {
+R[1] = v__3520124_37;
+saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3520012_37;
-saveCont(co, clofun99, 3, R);
+R[1] = v__3520124_37;
+saveCont(co, clofun100, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 }
 case 5:
 {
-Obj v__3521417_37= co->res;
-Obj v__3520012_37 = R[1];
-R[1] = v__3520012_37;
-saveCont(co, clofun99, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520012_37);
+Obj v__3521543_37= co->res;
+Obj v__3520124_37 = R[1];
+R[1] = v__3520124_37;
+saveCont(co, clofun100, 4, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520124_37);
 return;
 }
 }
 }
 
-static void clofun98(struct Cora* co, int label, Obj *R) {
+static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519621_37 = R[1];
-Obj v__3519622_37 = R[2];
-Obj v__3519623_37 = R[3];
-Obj v__3519624_37 = R[4];
-Obj v__3519625_37 = R[5];
-Obj v__3521125_37 = primGenSym(co);
-Obj v__3519973_37 = v__3521125_37;
-Obj v__3521409_37 = primSet(co, v__3519973_37, makeNative(co->gc, 3, clofun97, 2, 4, v__3519622_37, v__3519973_37, v__3519621_37, v__3519624_37));
-R[1] = v__3519625_37;
-R[2] = v__3519623_37;
-saveCont(co, clofun98, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519973_37);
+Obj v__3519730_37 = R[1];
+Obj v__3519731_37 = R[2];
+Obj v__3519732_37 = R[3];
+Obj v__3519733_37 = R[4];
+Obj v__3519734_37 = R[5];
+Obj v__3521251_37 = primGenSym(co);
+Obj v__3520085_37 = v__3521251_37;
+Obj v__3521535_37 = primSet(co, v__3520085_37, makeNative(co->gc, 3, clofun98, 2, 4, v__3519731_37, v__3520085_37, v__3519730_37, v__3519733_37));
+R[1] = v__3519734_37;
+R[2] = v__3519732_37;
+saveCont(co, clofun99, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520085_37);
 return;
 }
 case 1:
 {
-Obj v__3521410_37= co->res;
-Obj v__3519625_37 = R[1];
-Obj v__3519623_37 = R[2];
+Obj v__3521536_37= co->res;
+Obj v__3519734_37 = R[1];
+Obj v__3519732_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3521410_37, v__3519625_37, v__3519623_37);
+coraCall2(co, v__3521536_37, v__3519734_37, v__3519732_37);
 return;
 }
 }
 }
 
-static void clofun97(struct Cora* co, int label, Obj *R) {
+static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519627_37 = R[1];
-Obj v__3519628_37 = R[2];
-Obj v__3521126_37 = primIsSymbol(v__3519627_37);
-if (True == v__3521126_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3519627_37);
-return;
-} else {
-Obj v__3519974_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519628_37, closureRef(R[0], 2), v__3519627_37, closureRef(R[0], 3));
-Obj v__3521396_37 = PRIM_ISCONS(v__3519627_37);
-if (True == v__3521396_37) {
-Obj v__3521397_37 = PRIM_CAR(v__3519627_37);
-Obj v__3521398_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3521397_37);
-if (True == v__3521398_37) {
-Obj v__3521399_37 = PRIM_CDR(v__3519627_37);
-Obj v__3521400_37 = PRIM_ISCONS(v__3521399_37);
-if (True == v__3521400_37) {
-Obj v__3521401_37 = PRIM_CDR(v__3519627_37);
-Obj v__3521402_37 = PRIM_CAR(v__3521401_37);
-Obj v__3520009_37 = v__3521402_37;
-Obj v__3521403_37 = PRIM_CDR(v__3519627_37);
-Obj v__3521404_37 = PRIM_CDR(v__3521403_37);
-Obj v__3521405_37 = PRIM_EQ(Nil, v__3521404_37);
-if (True == v__3521405_37) {
-R[1] = v__3520009_37;
-saveCont(co, clofun97, 3, R);
+Obj v__3519736_37 = R[1];
+Obj v__3519737_37 = R[2];
+Obj v__3521252_37 = primIsSymbol(v__3519736_37);
+if (True == v__3521252_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3519736_37);
+return;
+} else {
+Obj v__3520086_37 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519737_37, closureRef(R[0], 2), v__3519736_37, closureRef(R[0], 3));
+Obj v__3521522_37 = PRIM_ISCONS(v__3519736_37);
+if (True == v__3521522_37) {
+Obj v__3521523_37 = PRIM_CAR(v__3519736_37);
+Obj v__3521524_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3521523_37);
+if (True == v__3521524_37) {
+Obj v__3521525_37 = PRIM_CDR(v__3519736_37);
+Obj v__3521526_37 = PRIM_ISCONS(v__3521525_37);
+if (True == v__3521526_37) {
+Obj v__3521527_37 = PRIM_CDR(v__3519736_37);
+Obj v__3521528_37 = PRIM_CAR(v__3521527_37);
+Obj v__3520121_37 = v__3521528_37;
+Obj v__3521529_37 = PRIM_CDR(v__3519736_37);
+Obj v__3521530_37 = PRIM_CDR(v__3521529_37);
+Obj v__3521531_37 = PRIM_EQ(Nil, v__3521530_37);
+if (True == v__3521531_37) {
+R[1] = v__3520121_37;
+saveCont(co, clofun98, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3520086_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3520086_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3520086_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3520086_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521408_37= co->res;
+Obj v__3521534_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3521407_37= co->res;
-saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3521407_37);
+Obj v__3521533_37= co->res;
+saveCont(co, clofun98, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3521533_37);
 return;
 }
 case 3:
 {
-Obj v__3521406_37= co->res;
-Obj v__3520009_37 = R[1];
-saveCont(co, clofun97, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520009_37, closureRef(R[0], 2));
+Obj v__3521532_37= co->res;
+Obj v__3520121_37 = R[1];
+saveCont(co, clofun98, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520121_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun96(struct Cora* co, int label, Obj *R) {
+static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519975_37 = makeNative(co->gc, 2, clofun95, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3521384_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3521384_37) {
-Obj v__3521385_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3521386_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521385_37);
-if (True == v__3521386_37) {
-Obj v__3521387_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521388_37 = PRIM_ISCONS(v__3521387_37);
-if (True == v__3521388_37) {
-Obj v__3521389_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521390_37 = PRIM_CAR(v__3521389_37);
-Obj v__3520008_37 = v__3521390_37;
-Obj v__3521391_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521392_37 = PRIM_CDR(v__3521391_37);
-Obj v__3521393_37 = PRIM_EQ(Nil, v__3521392_37);
-if (True == v__3521393_37) {
-R[1] = v__3520008_37;
-saveCont(co, clofun96, 2, R);
+Obj v__3520087_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3521510_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3521510_37) {
+Obj v__3521511_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3521512_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3521511_37);
+if (True == v__3521512_37) {
+Obj v__3521513_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521514_37 = PRIM_ISCONS(v__3521513_37);
+if (True == v__3521514_37) {
+Obj v__3521515_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521516_37 = PRIM_CAR(v__3521515_37);
+Obj v__3520120_37 = v__3521516_37;
+Obj v__3521517_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521518_37 = PRIM_CDR(v__3521517_37);
+Obj v__3521519_37 = PRIM_EQ(Nil, v__3521518_37);
+if (True == v__3521519_37) {
+R[1] = v__3520120_37;
+saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3520087_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3520087_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3520087_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3520087_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521395_37= co->res;
+Obj v__3521521_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521394_37= co->res;
-Obj v__3520008_37 = R[1];
-saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520008_37);
+Obj v__3521520_37= co->res;
+Obj v__3520120_37 = R[1];
+saveCont(co, clofun97, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520120_37);
 return;
 }
 }
 }
 
-static void clofun95(struct Cora* co, int label, Obj *R) {
+static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519976_37 = makeNative(co->gc, 4, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3521360_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3521360_37) {
-Obj v__3521361_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3521362_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3521361_37);
-if (True == v__3521362_37) {
-Obj v__3521363_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521364_37 = PRIM_ISCONS(v__3521363_37);
-if (True == v__3521364_37) {
-Obj v__3521365_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521366_37 = PRIM_CAR(v__3521365_37);
-Obj v__3520007_37 = v__3521366_37;
-Obj v__3521367_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521368_37 = PRIM_CDR(v__3521367_37);
-Obj v__3521369_37 = PRIM_EQ(Nil, v__3521368_37);
-if (True == v__3521369_37) {
-Obj v__3521370_37 = primIsSymbol(v__3520007_37);
-if (True == v__3521370_37) {
-R[1] = v__3520007_37;
-saveCont(co, clofun95, 3, R);
+Obj v__3520088_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521486_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3521486_37) {
+Obj v__3521487_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3521488_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3521487_37);
+if (True == v__3521488_37) {
+Obj v__3521489_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521490_37 = PRIM_ISCONS(v__3521489_37);
+if (True == v__3521490_37) {
+Obj v__3521491_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521492_37 = PRIM_CAR(v__3521491_37);
+Obj v__3520119_37 = v__3521492_37;
+Obj v__3521493_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521494_37 = PRIM_CDR(v__3521493_37);
+Obj v__3521495_37 = PRIM_EQ(Nil, v__3521494_37);
+if (True == v__3521495_37) {
+Obj v__3521496_37 = primIsSymbol(v__3520119_37);
+if (True == v__3521496_37) {
+R[1] = v__3520119_37;
+saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3520007_37;
-saveCont(co, clofun95, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3520007_37);
+R[1] = v__3520119_37;
+saveCont(co, clofun96, 9, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3520119_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3520088_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3520088_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3520088_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3520088_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521373_37= co->res;
+Obj v__3521499_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3521372_37= co->res;
-saveCont(co, clofun95, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521372_37);
+Obj v__3521498_37= co->res;
+saveCont(co, clofun96, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521498_37);
 return;
 }
 case 3:
 {
-Obj v__3521371_37= co->res;
-Obj v__3520007_37 = R[1];
-saveCont(co, clofun95, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520007_37, closureRef(R[0], 4));
+Obj v__3521497_37= co->res;
+Obj v__3520119_37 = R[1];
+saveCont(co, clofun96, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520119_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3521376_37= co->res;
+Obj v__3521502_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3521375_37= co->res;
-Obj v__3520007_37 = R[1];
-saveCont(co, clofun95, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520007_37);
+Obj v__3521501_37= co->res;
+Obj v__3520119_37 = R[1];
+saveCont(co, clofun96, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520119_37);
 return;
 }
 case 6:
 {
-Obj v__3521380_37= co->res;
+Obj v__3521506_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3521379_37= co->res;
-saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521379_37);
+Obj v__3521505_37= co->res;
+saveCont(co, clofun96, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521505_37);
 return;
 }
 case 8:
 {
-Obj v__3521378_37= co->res;
-Obj v__3520007_37 = R[1];
-saveCont(co, clofun95, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3520007_37);
+Obj v__3521504_37= co->res;
+Obj v__3520119_37 = R[1];
+saveCont(co, clofun96, 7, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3520119_37);
 return;
 }
 case 9:
 {
-Obj v__3521374_37= co->res;
-Obj v__3520007_37 = R[1];
-if (True == v__3521374_37) {
-R[1] = v__3520007_37;
-saveCont(co, clofun95, 5, R);
+Obj v__3521500_37= co->res;
+Obj v__3520119_37 = R[1];
+if (True == v__3521500_37) {
+R[1] = v__3520119_37;
+saveCont(co, clofun96, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3521377_37 = primIsString(v__3520007_37);
-if (True == v__3521377_37) {
-R[1] = v__3520007_37;
-saveCont(co, clofun95, 8, R);
+Obj v__3521503_37 = primIsString(v__3520119_37);
+if (True == v__3521503_37) {
+R[1] = v__3520119_37;
+saveCont(co, clofun96, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3521381_37 = PRIM_EQ(v__3520007_37, Nil);
-if (True == v__3521381_37) {
+Obj v__3521507_37 = PRIM_EQ(v__3520119_37, Nil);
+if (True == v__3521507_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3521382_37 = PRIM_EQ(v__3520007_37, True);
-if (True == v__3521382_37) {
+Obj v__3521508_37 = PRIM_EQ(v__3520119_37, True);
+if (True == v__3521508_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3521383_37 = PRIM_EQ(v__3520007_37, False);
-if (True == v__3521383_37) {
+Obj v__3521509_37 = PRIM_EQ(v__3520119_37, False);
+if (True == v__3521509_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no cond match"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no cond match"));
 return;
 }
 }
@@ -3072,334 +3075,334 @@ return;
 }
 }
 
-static void clofun94(struct Cora* co, int label, Obj *R) {
+static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519977_37 = makeNative(co->gc, 3, clofun93, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3521325_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521325_37) {
-Obj v__3521326_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521327_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3521326_37);
-if (True == v__3521327_37) {
-Obj v__3521328_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521329_37 = PRIM_ISCONS(v__3521328_37);
-if (True == v__3521329_37) {
-Obj v__3521330_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521331_37 = PRIM_CAR(v__3521330_37);
-Obj v__3520004_37 = v__3521331_37;
-Obj v__3521332_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521333_37 = PRIM_CDR(v__3521332_37);
-Obj v__3521334_37 = PRIM_ISCONS(v__3521333_37);
-if (True == v__3521334_37) {
-Obj v__3521335_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521336_37 = PRIM_CDR(v__3521335_37);
-Obj v__3521337_37 = PRIM_CAR(v__3521336_37);
-Obj v__3520005_37 = v__3521337_37;
-Obj v__3521338_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521339_37 = PRIM_CDR(v__3521338_37);
-Obj v__3521340_37 = PRIM_CDR(v__3521339_37);
-Obj v__3521341_37 = PRIM_ISCONS(v__3521340_37);
-if (True == v__3521341_37) {
-Obj v__3521342_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521343_37 = PRIM_CDR(v__3521342_37);
-Obj v__3521344_37 = PRIM_CDR(v__3521343_37);
-Obj v__3521345_37 = PRIM_CAR(v__3521344_37);
-Obj v__3520006_37 = v__3521345_37;
-Obj v__3521346_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521347_37 = PRIM_CDR(v__3521346_37);
-Obj v__3521348_37 = PRIM_CDR(v__3521347_37);
-Obj v__3521349_37 = PRIM_CDR(v__3521348_37);
-Obj v__3521350_37 = PRIM_EQ(Nil, v__3521349_37);
-if (True == v__3521350_37) {
-R[1] = v__3520005_37;
-R[2] = v__3520004_37;
-R[3] = v__3520006_37;
-saveCont(co, clofun94, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3520004_37, closureRef(R[0], 5));
+Obj v__3520089_37 = makeNative(co->gc, 3, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521451_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521451_37) {
+Obj v__3521452_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521453_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3521452_37);
+if (True == v__3521453_37) {
+Obj v__3521454_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521455_37 = PRIM_ISCONS(v__3521454_37);
+if (True == v__3521455_37) {
+Obj v__3521456_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521457_37 = PRIM_CAR(v__3521456_37);
+Obj v__3520116_37 = v__3521457_37;
+Obj v__3521458_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521459_37 = PRIM_CDR(v__3521458_37);
+Obj v__3521460_37 = PRIM_ISCONS(v__3521459_37);
+if (True == v__3521460_37) {
+Obj v__3521461_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521462_37 = PRIM_CDR(v__3521461_37);
+Obj v__3521463_37 = PRIM_CAR(v__3521462_37);
+Obj v__3520117_37 = v__3521463_37;
+Obj v__3521464_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521465_37 = PRIM_CDR(v__3521464_37);
+Obj v__3521466_37 = PRIM_CDR(v__3521465_37);
+Obj v__3521467_37 = PRIM_ISCONS(v__3521466_37);
+if (True == v__3521467_37) {
+Obj v__3521468_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521469_37 = PRIM_CDR(v__3521468_37);
+Obj v__3521470_37 = PRIM_CDR(v__3521469_37);
+Obj v__3521471_37 = PRIM_CAR(v__3521470_37);
+Obj v__3520118_37 = v__3521471_37;
+Obj v__3521472_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521473_37 = PRIM_CDR(v__3521472_37);
+Obj v__3521474_37 = PRIM_CDR(v__3521473_37);
+Obj v__3521475_37 = PRIM_CDR(v__3521474_37);
+Obj v__3521476_37 = PRIM_EQ(Nil, v__3521475_37);
+if (True == v__3521476_37) {
+R[1] = v__3520117_37;
+R[2] = v__3520116_37;
+R[3] = v__3520118_37;
+saveCont(co, clofun95, 8, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3520116_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3520089_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3520089_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3520089_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3520089_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3520089_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3520089_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521358_37= co->res;
-Obj v__3520004_37 = R[1];
-Obj v__3520006_37 = R[2];
-Obj v__3521359_37 = makeCons(co->gc, v__3520004_37, closureRef(R[0], 5));
+Obj v__3521484_37= co->res;
+Obj v__3520116_37 = R[1];
+Obj v__3520118_37 = R[2];
+Obj v__3521485_37 = makeCons(co->gc, v__3520116_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3521358_37, v__3520006_37, v__3521359_37);
+coraCall2(co, v__3521484_37, v__3520118_37, v__3521485_37);
 return;
 }
 case 2:
 {
-Obj v__3521357_37= co->res;
-Obj v__3520004_37 = R[1];
-Obj v__3520006_37 = R[2];
-R[1] = v__3520004_37;
-R[2] = v__3520006_37;
-saveCont(co, clofun94, 1, R);
+Obj v__3521483_37= co->res;
+Obj v__3520116_37 = R[1];
+Obj v__3520118_37 = R[2];
+R[1] = v__3520116_37;
+R[2] = v__3520118_37;
+saveCont(co, clofun95, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521356_37= co->res;
-Obj v__3520004_37 = R[1];
-Obj v__3520006_37 = R[2];
-R[1] = v__3520004_37;
-R[2] = v__3520006_37;
-saveCont(co, clofun94, 2, R);
+Obj v__3521482_37= co->res;
+Obj v__3520116_37 = R[1];
+Obj v__3520118_37 = R[2];
+R[1] = v__3520116_37;
+R[2] = v__3520118_37;
+saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3521355_37= co->res;
-Obj v__3520005_37 = R[1];
-Obj v__3520004_37 = R[2];
-Obj v__3520006_37 = R[3];
-R[1] = v__3520004_37;
-R[2] = v__3520006_37;
-saveCont(co, clofun94, 3, R);
-coraCall2(co, v__3521355_37, v__3520005_37, closureRef(R[0], 5));
+Obj v__3521481_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520116_37 = R[2];
+Obj v__3520118_37 = R[3];
+R[1] = v__3520116_37;
+R[2] = v__3520118_37;
+saveCont(co, clofun95, 3, R);
+coraCall2(co, v__3521481_37, v__3520117_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3521354_37= co->res;
-Obj v__3520005_37 = R[1];
-Obj v__3520004_37 = R[2];
-Obj v__3520006_37 = R[3];
-R[1] = v__3520005_37;
-R[2] = v__3520004_37;
-R[3] = v__3520006_37;
-saveCont(co, clofun94, 4, R);
+Obj v__3521480_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520116_37 = R[2];
+Obj v__3520118_37 = R[3];
+R[1] = v__3520117_37;
+R[2] = v__3520116_37;
+R[3] = v__3520118_37;
+saveCont(co, clofun95, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3521353_37= co->res;
-Obj v__3520005_37 = R[1];
-Obj v__3520004_37 = R[2];
-Obj v__3520006_37 = R[3];
-R[1] = v__3520005_37;
-R[2] = v__3520004_37;
-R[3] = v__3520006_37;
-saveCont(co, clofun94, 5, R);
+Obj v__3521479_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520116_37 = R[2];
+Obj v__3520118_37 = R[3];
+R[1] = v__3520117_37;
+R[2] = v__3520116_37;
+R[3] = v__3520118_37;
+saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3521352_37= co->res;
-Obj v__3520005_37 = R[1];
-Obj v__3520004_37 = R[2];
-Obj v__3520006_37 = R[3];
-R[1] = v__3520005_37;
-R[2] = v__3520004_37;
-R[3] = v__3520006_37;
-saveCont(co, clofun94, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3520004_37);
+Obj v__3521478_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520116_37 = R[2];
+Obj v__3520118_37 = R[3];
+R[1] = v__3520117_37;
+R[2] = v__3520116_37;
+R[3] = v__3520118_37;
+saveCont(co, clofun95, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3520116_37);
 return;
 }
 case 8:
 {
-Obj v__3521351_37= co->res;
-Obj v__3520005_37 = R[1];
-Obj v__3520004_37 = R[2];
-Obj v__3520006_37 = R[3];
-R[1] = v__3520005_37;
-R[2] = v__3520004_37;
-R[3] = v__3520006_37;
-saveCont(co, clofun94, 7, R);
+Obj v__3521477_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520116_37 = R[2];
+Obj v__3520118_37 = R[3];
+R[1] = v__3520117_37;
+R[2] = v__3520116_37;
+R[3] = v__3520118_37;
+saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 }
 }
 
-static void clofun93(struct Cora* co, int label, Obj *R) {
+static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519978_37 = makeNative(co->gc, 4, clofun92, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521295_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521295_37) {
-Obj v__3521296_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521297_37 = PRIM_ISCONS(v__3521296_37);
-if (True == v__3521297_37) {
-Obj v__3521298_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521299_37 = PRIM_CAR(v__3521298_37);
-Obj v__3521300_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3521299_37);
-if (True == v__3521300_37) {
-Obj v__3521301_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521302_37 = PRIM_CDR(v__3521301_37);
-Obj v__3521303_37 = PRIM_ISCONS(v__3521302_37);
-if (True == v__3521303_37) {
-Obj v__3521304_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521305_37 = PRIM_CDR(v__3521304_37);
-Obj v__3521306_37 = PRIM_CAR(v__3521305_37);
-Obj v__3520002_37 = v__3521306_37;
-Obj v__3521307_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521308_37 = PRIM_CDR(v__3521307_37);
-Obj v__3521309_37 = PRIM_CDR(v__3521308_37);
-Obj v__3521310_37 = PRIM_EQ(Nil, v__3521309_37);
-if (True == v__3521310_37) {
-Obj v__3521311_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3520003_37 = v__3521311_37;
-R[1] = v__3520002_37;
-R[2] = v__3520003_37;
-saveCont(co, clofun93, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3520002_37);
+Obj v__3520090_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521421_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521421_37) {
+Obj v__3521422_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521423_37 = PRIM_ISCONS(v__3521422_37);
+if (True == v__3521423_37) {
+Obj v__3521424_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521425_37 = PRIM_CAR(v__3521424_37);
+Obj v__3521426_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3521425_37);
+if (True == v__3521426_37) {
+Obj v__3521427_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521428_37 = PRIM_CDR(v__3521427_37);
+Obj v__3521429_37 = PRIM_ISCONS(v__3521428_37);
+if (True == v__3521429_37) {
+Obj v__3521430_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521431_37 = PRIM_CDR(v__3521430_37);
+Obj v__3521432_37 = PRIM_CAR(v__3521431_37);
+Obj v__3520114_37 = v__3521432_37;
+Obj v__3521433_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521434_37 = PRIM_CDR(v__3521433_37);
+Obj v__3521435_37 = PRIM_CDR(v__3521434_37);
+Obj v__3521436_37 = PRIM_EQ(Nil, v__3521435_37);
+if (True == v__3521436_37) {
+Obj v__3521437_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520115_37 = v__3521437_37;
+R[1] = v__3520114_37;
+R[2] = v__3520115_37;
+saveCont(co, clofun94, 10, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520114_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519978_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519978_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519978_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519978_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519978_37);
+coraCall0(co, v__3520090_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521316_37= co->res;
+Obj v__3521442_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521315_37= co->res;
-Obj v__3520003_37 = R[1];
-saveCont(co, clofun93, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
+Obj v__3521441_37= co->res;
+Obj v__3520115_37 = R[1];
+saveCont(co, clofun94, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521319_37= co->res;
+Obj v__3521445_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3521318_37= co->res;
-Obj v__3520003_37 = R[1];
-saveCont(co, clofun93, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
+Obj v__3521444_37= co->res;
+Obj v__3520115_37 = R[1];
+saveCont(co, clofun94, 3, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3521322_37= co->res;
+Obj v__3521448_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3521321_37= co->res;
-Obj v__3520003_37 = R[1];
-saveCont(co, clofun93, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
+Obj v__3521447_37= co->res;
+Obj v__3520115_37 = R[1];
+saveCont(co, clofun94, 5, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3521324_37= co->res;
+Obj v__3521450_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3521323_37= co->res;
-Obj v__3520003_37 = R[1];
-saveCont(co, clofun93, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520003_37};
+Obj v__3521449_37= co->res;
+Obj v__3520115_37 = R[1];
+saveCont(co, clofun94, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3521313_37= co->res;
-Obj v__3520002_37 = R[1];
-Obj v__3520003_37 = R[2];
-Obj v__3521314_37 = PRIM_EQ(v__3520002_37, getBinding(co, packageID, 121).name);
-if (True == v__3521314_37) {
-R[1] = v__3520003_37;
-saveCont(co, clofun93, 2, R);
+Obj v__3521439_37= co->res;
+Obj v__3520114_37 = R[1];
+Obj v__3520115_37 = R[2];
+Obj v__3521440_37 = PRIM_EQ(v__3520114_37, getBinding(co, packageID, 122).name);
+if (True == v__3521440_37) {
+R[1] = v__3520115_37;
+saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3521317_37 = PRIM_EQ(v__3520002_37, getBinding(co, packageID, 109).name);
-if (True == v__3521317_37) {
-R[1] = v__3520003_37;
-saveCont(co, clofun93, 4, R);
+Obj v__3521443_37 = PRIM_EQ(v__3520114_37, getBinding(co, packageID, 110).name);
+if (True == v__3521443_37) {
+R[1] = v__3520115_37;
+saveCont(co, clofun94, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3521320_37 = PRIM_EQ(v__3520002_37, getBinding(co, packageID, 118).name);
-if (True == v__3521320_37) {
-R[1] = v__3520003_37;
-saveCont(co, clofun93, 6, R);
+Obj v__3521446_37 = PRIM_EQ(v__3520114_37, getBinding(co, packageID, 119).name);
+if (True == v__3521446_37) {
+R[1] = v__3520115_37;
+saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3520003_37;
-saveCont(co, clofun93, 8, R);
+R[1] = v__3520115_37;
+saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
 }
@@ -3408,284 +3411,284 @@ return;
 }
 case 10:
 {
-Obj v__3521312_37= co->res;
-Obj v__3520002_37 = R[1];
-Obj v__3520003_37 = R[2];
-R[1] = v__3520002_37;
-R[2] = v__3520003_37;
-saveCont(co, clofun93, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521312_37);
+Obj v__3521438_37= co->res;
+Obj v__3520114_37 = R[1];
+Obj v__3520115_37 = R[2];
+R[1] = v__3520114_37;
+R[2] = v__3520115_37;
+saveCont(co, clofun94, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521438_37);
 return;
 }
 }
 }
 
-static void clofun92(struct Cora* co, int label, Obj *R) {
+static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519979_37 = makeNative(co->gc, 5, clofun91, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521260_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521260_37) {
-Obj v__3521261_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521262_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3521261_37);
-if (True == v__3521262_37) {
-Obj v__3521263_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521264_37 = PRIM_ISCONS(v__3521263_37);
-if (True == v__3521264_37) {
-Obj v__3521265_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521266_37 = PRIM_CAR(v__3521265_37);
-Obj v__3519999_37 = v__3521266_37;
-Obj v__3521267_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521268_37 = PRIM_CDR(v__3521267_37);
-Obj v__3521269_37 = PRIM_ISCONS(v__3521268_37);
-if (True == v__3521269_37) {
-Obj v__3521270_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521271_37 = PRIM_CDR(v__3521270_37);
-Obj v__3521272_37 = PRIM_CAR(v__3521271_37);
-Obj v__3520000_37 = v__3521272_37;
-Obj v__3521273_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521274_37 = PRIM_CDR(v__3521273_37);
-Obj v__3521275_37 = PRIM_CDR(v__3521274_37);
-Obj v__3521276_37 = PRIM_ISCONS(v__3521275_37);
-if (True == v__3521276_37) {
-Obj v__3521277_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521278_37 = PRIM_CDR(v__3521277_37);
-Obj v__3521279_37 = PRIM_CDR(v__3521278_37);
-Obj v__3521280_37 = PRIM_CAR(v__3521279_37);
-Obj v__3520001_37 = v__3521280_37;
-Obj v__3521281_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521282_37 = PRIM_CDR(v__3521281_37);
-Obj v__3521283_37 = PRIM_CDR(v__3521282_37);
-Obj v__3521284_37 = PRIM_CDR(v__3521283_37);
-Obj v__3521285_37 = PRIM_EQ(Nil, v__3521284_37);
-if (True == v__3521285_37) {
-R[1] = v__3519999_37;
-R[2] = v__3520000_37;
-R[3] = v__3520001_37;
-saveCont(co, clofun92, 9, R);
+Obj v__3520091_37 = makeNative(co->gc, 5, clofun92, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521386_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521386_37) {
+Obj v__3521387_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521388_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3521387_37);
+if (True == v__3521388_37) {
+Obj v__3521389_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521390_37 = PRIM_ISCONS(v__3521389_37);
+if (True == v__3521390_37) {
+Obj v__3521391_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521392_37 = PRIM_CAR(v__3521391_37);
+Obj v__3520111_37 = v__3521392_37;
+Obj v__3521393_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521394_37 = PRIM_CDR(v__3521393_37);
+Obj v__3521395_37 = PRIM_ISCONS(v__3521394_37);
+if (True == v__3521395_37) {
+Obj v__3521396_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521397_37 = PRIM_CDR(v__3521396_37);
+Obj v__3521398_37 = PRIM_CAR(v__3521397_37);
+Obj v__3520112_37 = v__3521398_37;
+Obj v__3521399_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521400_37 = PRIM_CDR(v__3521399_37);
+Obj v__3521401_37 = PRIM_CDR(v__3521400_37);
+Obj v__3521402_37 = PRIM_ISCONS(v__3521401_37);
+if (True == v__3521402_37) {
+Obj v__3521403_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521404_37 = PRIM_CDR(v__3521403_37);
+Obj v__3521405_37 = PRIM_CDR(v__3521404_37);
+Obj v__3521406_37 = PRIM_CAR(v__3521405_37);
+Obj v__3520113_37 = v__3521406_37;
+Obj v__3521407_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521408_37 = PRIM_CDR(v__3521407_37);
+Obj v__3521409_37 = PRIM_CDR(v__3521408_37);
+Obj v__3521410_37 = PRIM_CDR(v__3521409_37);
+Obj v__3521411_37 = PRIM_EQ(Nil, v__3521410_37);
+if (True == v__3521411_37) {
+R[1] = v__3520111_37;
+R[2] = v__3520112_37;
+R[3] = v__3520113_37;
+saveCont(co, clofun93, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3520091_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3520091_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3520091_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3520091_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3520091_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3520091_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521294_37= co->res;
+Obj v__3521420_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3521293_37= co->res;
-Obj v__3520001_37 = R[1];
-saveCont(co, clofun92, 1, R);
-coraCall2(co, v__3521293_37, v__3520001_37, closureRef(R[0], 4));
+Obj v__3521419_37= co->res;
+Obj v__3520113_37 = R[1];
+saveCont(co, clofun93, 1, R);
+coraCall2(co, v__3521419_37, v__3520113_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521292_37= co->res;
-Obj v__3520001_37 = R[1];
-R[1] = v__3520001_37;
-saveCont(co, clofun92, 2, R);
+Obj v__3521418_37= co->res;
+Obj v__3520113_37 = R[1];
+R[1] = v__3520113_37;
+saveCont(co, clofun93, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3521291_37= co->res;
-Obj v__3520001_37 = R[1];
-R[1] = v__3520001_37;
-saveCont(co, clofun92, 3, R);
+Obj v__3521417_37= co->res;
+Obj v__3520113_37 = R[1];
+R[1] = v__3520113_37;
+saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3521290_37= co->res;
-Obj v__3520000_37 = R[1];
-Obj v__3520001_37 = R[2];
-R[1] = v__3520001_37;
-saveCont(co, clofun92, 4, R);
-coraCall2(co, v__3521290_37, v__3520000_37, closureRef(R[0], 4));
+Obj v__3521416_37= co->res;
+Obj v__3520112_37 = R[1];
+Obj v__3520113_37 = R[2];
+R[1] = v__3520113_37;
+saveCont(co, clofun93, 4, R);
+coraCall2(co, v__3521416_37, v__3520112_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3521289_37= co->res;
-Obj v__3520000_37 = R[1];
-Obj v__3520001_37 = R[2];
-R[1] = v__3520000_37;
-R[2] = v__3520001_37;
-saveCont(co, clofun92, 5, R);
+Obj v__3521415_37= co->res;
+Obj v__3520112_37 = R[1];
+Obj v__3520113_37 = R[2];
+R[1] = v__3520112_37;
+R[2] = v__3520113_37;
+saveCont(co, clofun93, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3521288_37= co->res;
-Obj v__3520000_37 = R[1];
-Obj v__3520001_37 = R[2];
-R[1] = v__3520000_37;
-R[2] = v__3520001_37;
-saveCont(co, clofun92, 6, R);
+Obj v__3521414_37= co->res;
+Obj v__3520112_37 = R[1];
+Obj v__3520113_37 = R[2];
+R[1] = v__3520112_37;
+R[2] = v__3520113_37;
+saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3521287_37= co->res;
-Obj v__3519999_37 = R[1];
-Obj v__3520000_37 = R[2];
-Obj v__3520001_37 = R[3];
-R[1] = v__3520000_37;
-R[2] = v__3520001_37;
-saveCont(co, clofun92, 7, R);
-coraCall2(co, v__3521287_37, v__3519999_37, closureRef(R[0], 4));
+Obj v__3521413_37= co->res;
+Obj v__3520111_37 = R[1];
+Obj v__3520112_37 = R[2];
+Obj v__3520113_37 = R[3];
+R[1] = v__3520112_37;
+R[2] = v__3520113_37;
+saveCont(co, clofun93, 7, R);
+coraCall2(co, v__3521413_37, v__3520111_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3521286_37= co->res;
-Obj v__3519999_37 = R[1];
-Obj v__3520000_37 = R[2];
-Obj v__3520001_37 = R[3];
-R[1] = v__3519999_37;
-R[2] = v__3520000_37;
-R[3] = v__3520001_37;
-saveCont(co, clofun92, 8, R);
+Obj v__3521412_37= co->res;
+Obj v__3520111_37 = R[1];
+Obj v__3520112_37 = R[2];
+Obj v__3520113_37 = R[3];
+R[1] = v__3520111_37;
+R[2] = v__3520112_37;
+R[3] = v__3520113_37;
+saveCont(co, clofun93, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun91(struct Cora* co, int label, Obj *R) {
+static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519980_37 = makeNative(co->gc, 3, clofun90, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3521222_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521222_37) {
-Obj v__3521223_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521224_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3521223_37);
-if (True == v__3521224_37) {
-Obj v__3521225_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521226_37 = PRIM_ISCONS(v__3521225_37);
-if (True == v__3521226_37) {
-Obj v__3521227_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521228_37 = PRIM_CAR(v__3521227_37);
-Obj v__3519995_37 = v__3521228_37;
-Obj v__3521229_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521230_37 = PRIM_CDR(v__3521229_37);
-Obj v__3521231_37 = PRIM_ISCONS(v__3521230_37);
-if (True == v__3521231_37) {
-Obj v__3521232_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521233_37 = PRIM_CDR(v__3521232_37);
-Obj v__3521234_37 = PRIM_CAR(v__3521233_37);
-Obj v__3519996_37 = v__3521234_37;
-Obj v__3521235_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521236_37 = PRIM_CDR(v__3521235_37);
-Obj v__3521237_37 = PRIM_CDR(v__3521236_37);
-Obj v__3521238_37 = PRIM_ISCONS(v__3521237_37);
-if (True == v__3521238_37) {
-Obj v__3521239_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521240_37 = PRIM_CDR(v__3521239_37);
-Obj v__3521241_37 = PRIM_CDR(v__3521240_37);
-Obj v__3521242_37 = PRIM_CAR(v__3521241_37);
-Obj v__3519997_37 = v__3521242_37;
-Obj v__3521243_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521244_37 = PRIM_CDR(v__3521243_37);
-Obj v__3521245_37 = PRIM_CDR(v__3521244_37);
-Obj v__3521246_37 = PRIM_CDR(v__3521245_37);
-Obj v__3519998_37 = v__3521246_37;
-R[1] = v__3519997_37;
-R[2] = v__3519995_37;
-R[3] = v__3519996_37;
-R[4] = v__3519998_37;
-saveCont(co, clofun91, 12, R);
+Obj v__3520092_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3521348_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521348_37) {
+Obj v__3521349_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521350_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521349_37);
+if (True == v__3521350_37) {
+Obj v__3521351_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521352_37 = PRIM_ISCONS(v__3521351_37);
+if (True == v__3521352_37) {
+Obj v__3521353_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521354_37 = PRIM_CAR(v__3521353_37);
+Obj v__3520107_37 = v__3521354_37;
+Obj v__3521355_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521356_37 = PRIM_CDR(v__3521355_37);
+Obj v__3521357_37 = PRIM_ISCONS(v__3521356_37);
+if (True == v__3521357_37) {
+Obj v__3521358_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521359_37 = PRIM_CDR(v__3521358_37);
+Obj v__3521360_37 = PRIM_CAR(v__3521359_37);
+Obj v__3520108_37 = v__3521360_37;
+Obj v__3521361_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521362_37 = PRIM_CDR(v__3521361_37);
+Obj v__3521363_37 = PRIM_CDR(v__3521362_37);
+Obj v__3521364_37 = PRIM_ISCONS(v__3521363_37);
+if (True == v__3521364_37) {
+Obj v__3521365_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521366_37 = PRIM_CDR(v__3521365_37);
+Obj v__3521367_37 = PRIM_CDR(v__3521366_37);
+Obj v__3521368_37 = PRIM_CAR(v__3521367_37);
+Obj v__3520109_37 = v__3521368_37;
+Obj v__3521369_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521370_37 = PRIM_CDR(v__3521369_37);
+Obj v__3521371_37 = PRIM_CDR(v__3521370_37);
+Obj v__3521372_37 = PRIM_CDR(v__3521371_37);
+Obj v__3520110_37 = v__3521372_37;
+R[1] = v__3520109_37;
+R[2] = v__3520107_37;
+R[3] = v__3520108_37;
+R[4] = v__3520110_37;
+saveCont(co, clofun92, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3520092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3520092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3520092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3520092_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3520092_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521259_37= co->res;
+Obj v__3521385_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521258_37= co->res;
-Obj v__3519998_37 = R[1];
-saveCont(co, clofun91, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519998_37};
+Obj v__3521384_37= co->res;
+Obj v__3520110_37 = R[1];
+saveCont(co, clofun92, 1, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520110_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521256_37= co->res;
-Obj v__3519998_37 = R[1];
-Obj v__3521257_37 = primNot(v__3521256_37);
-if (True == v__3521257_37) {
-R[1] = v__3519998_37;
-saveCont(co, clofun91, 2, R);
+Obj v__3521382_37= co->res;
+Obj v__3520110_37 = R[1];
+Obj v__3521383_37 = primNot(v__3521382_37);
+if (True == v__3521383_37) {
+R[1] = v__3520110_37;
+saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -3697,639 +3700,639 @@ return;
 }
 case 4:
 {
-Obj v__3521255_37= co->res;
-Obj v__3519998_37 = R[1];
-R[1] = v__3519998_37;
-saveCont(co, clofun91, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519998_37);
+Obj v__3521381_37= co->res;
+Obj v__3520110_37 = R[1];
+R[1] = v__3520110_37;
+saveCont(co, clofun92, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520110_37);
 return;
 }
 case 5:
 {
-Obj v__3521254_37= co->res;
-Obj v__3519998_37 = R[1];
-R[1] = v__3519998_37;
-saveCont(co, clofun91, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521254_37);
+Obj v__3521380_37= co->res;
+Obj v__3520110_37 = R[1];
+R[1] = v__3520110_37;
+saveCont(co, clofun92, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521380_37);
 return;
 }
 case 6:
 {
-Obj v__3521253_37= co->res;
-Obj v__3519998_37 = R[1];
-R[1] = v__3519998_37;
-saveCont(co, clofun91, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519998_37);
+Obj v__3521379_37= co->res;
+Obj v__3520110_37 = R[1];
+R[1] = v__3520110_37;
+saveCont(co, clofun92, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520110_37);
 return;
 }
 case 7:
 {
-Obj v__3521252_37= co->res;
-Obj v__3519998_37 = R[1];
-R[1] = v__3519998_37;
-saveCont(co, clofun91, 6, R);
+Obj v__3521378_37= co->res;
+Obj v__3520110_37 = R[1];
+R[1] = v__3520110_37;
+saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3521251_37= co->res;
-Obj v__3519996_37 = R[1];
-Obj v__3519998_37 = R[2];
-R[1] = v__3519998_37;
-saveCont(co, clofun91, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519996_37);
+Obj v__3521377_37= co->res;
+Obj v__3520108_37 = R[1];
+Obj v__3520110_37 = R[2];
+R[1] = v__3520110_37;
+saveCont(co, clofun92, 7, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520108_37);
 return;
 }
 case 9:
 {
-Obj v__3521250_37= co->res;
-Obj v__3519996_37 = R[1];
-Obj v__3519998_37 = R[2];
-R[1] = v__3519996_37;
-R[2] = v__3519998_37;
-saveCont(co, clofun91, 8, R);
+Obj v__3521376_37= co->res;
+Obj v__3520108_37 = R[1];
+Obj v__3520110_37 = R[2];
+R[1] = v__3520108_37;
+R[2] = v__3520110_37;
+saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3521249_37= co->res;
-Obj v__3519995_37 = R[1];
-Obj v__3519996_37 = R[2];
-Obj v__3519998_37 = R[3];
-R[1] = v__3519996_37;
-R[2] = v__3519998_37;
-saveCont(co, clofun91, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3519995_37);
+Obj v__3521375_37= co->res;
+Obj v__3520107_37 = R[1];
+Obj v__3520108_37 = R[2];
+Obj v__3520110_37 = R[3];
+R[1] = v__3520108_37;
+R[2] = v__3520110_37;
+saveCont(co, clofun92, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3520107_37);
 return;
 }
 case 11:
 {
-Obj v__3521248_37= co->res;
-Obj v__3519995_37 = R[1];
-Obj v__3519996_37 = R[2];
-Obj v__3519998_37 = R[3];
-R[1] = v__3519995_37;
-R[2] = v__3519996_37;
-R[3] = v__3519998_37;
-saveCont(co, clofun91, 10, R);
+Obj v__3521374_37= co->res;
+Obj v__3520107_37 = R[1];
+Obj v__3520108_37 = R[2];
+Obj v__3520110_37 = R[3];
+R[1] = v__3520107_37;
+R[2] = v__3520108_37;
+R[3] = v__3520110_37;
+saveCont(co, clofun92, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3521247_37= co->res;
-Obj v__3519997_37 = R[1];
-Obj v__3519995_37 = R[2];
-Obj v__3519996_37 = R[3];
-Obj v__3519998_37 = R[4];
-R[1] = v__3519995_37;
-R[2] = v__3519996_37;
-R[3] = v__3519998_37;
-saveCont(co, clofun91, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519997_37);
+Obj v__3521373_37= co->res;
+Obj v__3520109_37 = R[1];
+Obj v__3520107_37 = R[2];
+Obj v__3520108_37 = R[3];
+Obj v__3520110_37 = R[4];
+R[1] = v__3520107_37;
+R[2] = v__3520108_37;
+R[3] = v__3520110_37;
+saveCont(co, clofun92, 11, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520109_37);
 return;
 }
 }
 }
 
-static void clofun90(struct Cora* co, int label, Obj *R) {
+static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519981_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3521201_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521201_37) {
-Obj v__3521202_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521203_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3521202_37);
-if (True == v__3521203_37) {
-Obj v__3521204_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521205_37 = PRIM_ISCONS(v__3521204_37);
-if (True == v__3521205_37) {
-Obj v__3521206_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521207_37 = PRIM_CAR(v__3521206_37);
-Obj v__3519993_37 = v__3521207_37;
-Obj v__3521208_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521209_37 = PRIM_CDR(v__3521208_37);
-Obj v__3521210_37 = PRIM_ISCONS(v__3521209_37);
-if (True == v__3521210_37) {
-Obj v__3521211_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521212_37 = PRIM_CDR(v__3521211_37);
-Obj v__3521213_37 = PRIM_CAR(v__3521212_37);
-Obj v__3519994_37 = v__3521213_37;
-Obj v__3521214_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521215_37 = PRIM_CDR(v__3521214_37);
-Obj v__3521216_37 = PRIM_CDR(v__3521215_37);
-Obj v__3521217_37 = PRIM_EQ(Nil, v__3521216_37);
-if (True == v__3521217_37) {
-R[1] = v__3519993_37;
-R[2] = v__3519994_37;
-saveCont(co, clofun90, 4, R);
+Obj v__3520093_37 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521327_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521327_37) {
+Obj v__3521328_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521329_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3521328_37);
+if (True == v__3521329_37) {
+Obj v__3521330_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521331_37 = PRIM_ISCONS(v__3521330_37);
+if (True == v__3521331_37) {
+Obj v__3521332_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521333_37 = PRIM_CAR(v__3521332_37);
+Obj v__3520105_37 = v__3521333_37;
+Obj v__3521334_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521335_37 = PRIM_CDR(v__3521334_37);
+Obj v__3521336_37 = PRIM_ISCONS(v__3521335_37);
+if (True == v__3521336_37) {
+Obj v__3521337_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521338_37 = PRIM_CDR(v__3521337_37);
+Obj v__3521339_37 = PRIM_CAR(v__3521338_37);
+Obj v__3520106_37 = v__3521339_37;
+Obj v__3521340_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521341_37 = PRIM_CDR(v__3521340_37);
+Obj v__3521342_37 = PRIM_CDR(v__3521341_37);
+Obj v__3521343_37 = PRIM_EQ(Nil, v__3521342_37);
+if (True == v__3521343_37) {
+R[1] = v__3520105_37;
+R[2] = v__3520106_37;
+saveCont(co, clofun91, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3520093_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3520093_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3520093_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3520093_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3520093_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521221_37= co->res;
-Obj v__3519994_37 = R[1];
+Obj v__3521347_37= co->res;
+Obj v__3520106_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3521221_37, v__3519994_37, closureRef(R[0], 5));
+coraCall2(co, v__3521347_37, v__3520106_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3521220_37= co->res;
-Obj v__3519994_37 = R[1];
-R[1] = v__3519994_37;
-saveCont(co, clofun90, 1, R);
+Obj v__3521346_37= co->res;
+Obj v__3520106_37 = R[1];
+R[1] = v__3520106_37;
+saveCont(co, clofun91, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521219_37= co->res;
-Obj v__3519994_37 = R[1];
-R[1] = v__3519994_37;
-saveCont(co, clofun90, 2, R);
+Obj v__3521345_37= co->res;
+Obj v__3520106_37 = R[1];
+R[1] = v__3520106_37;
+saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3521218_37= co->res;
-Obj v__3519993_37 = R[1];
-Obj v__3519994_37 = R[2];
-R[1] = v__3519994_37;
-saveCont(co, clofun90, 3, R);
-coraCall2(co, v__3521218_37, v__3519993_37, closureRef(R[0], 5));
+Obj v__3521344_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520106_37 = R[2];
+R[1] = v__3520106_37;
+saveCont(co, clofun91, 3, R);
+coraCall2(co, v__3521344_37, v__3520105_37, closureRef(R[0], 5));
 return;
 }
 }
 }
 
-static void clofun89(struct Cora* co, int label, Obj *R) {
+static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519982_37 = makeNative(co->gc, 2, clofun88, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521187_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521187_37) {
-Obj v__3521188_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521189_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521188_37);
-if (True == v__3521189_37) {
-Obj v__3521190_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521191_37 = PRIM_ISCONS(v__3521190_37);
-if (True == v__3521191_37) {
-Obj v__3521192_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521193_37 = PRIM_CAR(v__3521192_37);
-Obj v__3519992_37 = v__3521193_37;
-Obj v__3521194_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521195_37 = PRIM_CDR(v__3521194_37);
-Obj v__3521196_37 = PRIM_EQ(Nil, v__3521195_37);
-if (True == v__3521196_37) {
-R[1] = v__3519992_37;
-saveCont(co, clofun89, 4, R);
+Obj v__3520094_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521313_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521313_37) {
+Obj v__3521314_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521315_37 = PRIM_EQ(getBinding(co, packageID, 71).name, v__3521314_37);
+if (True == v__3521315_37) {
+Obj v__3521316_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521317_37 = PRIM_ISCONS(v__3521316_37);
+if (True == v__3521317_37) {
+Obj v__3521318_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521319_37 = PRIM_CAR(v__3521318_37);
+Obj v__3520104_37 = v__3521319_37;
+Obj v__3521320_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521321_37 = PRIM_CDR(v__3521320_37);
+Obj v__3521322_37 = PRIM_EQ(Nil, v__3521321_37);
+if (True == v__3521322_37) {
+R[1] = v__3520104_37;
+saveCont(co, clofun90, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3520094_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3520094_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3520094_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3520094_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521200_37= co->res;
+Obj v__3521326_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521199_37= co->res;
-saveCont(co, clofun89, 1, R);
+Obj v__3521325_37= co->res;
+saveCont(co, clofun90, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3521198_37= co->res;
-Obj v__3519992_37 = R[1];
-saveCont(co, clofun89, 2, R);
-coraCall2(co, v__3521198_37, v__3519992_37, closureRef(R[0], 4));
+Obj v__3521324_37= co->res;
+Obj v__3520104_37 = R[1];
+saveCont(co, clofun90, 2, R);
+coraCall2(co, v__3521324_37, v__3520104_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3521197_37= co->res;
-Obj v__3519992_37 = R[1];
-R[1] = v__3519992_37;
-saveCont(co, clofun89, 3, R);
+Obj v__3521323_37= co->res;
+Obj v__3520104_37 = R[1];
+R[1] = v__3520104_37;
+saveCont(co, clofun90, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun88(struct Cora* co, int label, Obj *R) {
+static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519983_37 = makeNative(co->gc, 3, clofun87, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521174_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521174_37) {
-Obj v__3521175_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521176_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521175_37);
-if (True == v__3521176_37) {
-Obj v__3521177_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521178_37 = PRIM_ISCONS(v__3521177_37);
-if (True == v__3521178_37) {
-Obj v__3521179_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521180_37 = PRIM_CAR(v__3521179_37);
-Obj v__3519991_37 = v__3521180_37;
-Obj v__3521181_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521182_37 = PRIM_CDR(v__3521181_37);
-Obj v__3521183_37 = PRIM_EQ(Nil, v__3521182_37);
-if (True == v__3521183_37) {
-R[1] = v__3519991_37;
-saveCont(co, clofun88, 3, R);
+Obj v__3520095_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521300_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521300_37) {
+Obj v__3521301_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521302_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3521301_37);
+if (True == v__3521302_37) {
+Obj v__3521303_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521304_37 = PRIM_ISCONS(v__3521303_37);
+if (True == v__3521304_37) {
+Obj v__3521305_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521306_37 = PRIM_CAR(v__3521305_37);
+Obj v__3520103_37 = v__3521306_37;
+Obj v__3521307_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521308_37 = PRIM_CDR(v__3521307_37);
+Obj v__3521309_37 = PRIM_EQ(Nil, v__3521308_37);
+if (True == v__3521309_37) {
+R[1] = v__3520103_37;
+saveCont(co, clofun89, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3520095_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3520095_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3520095_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3520095_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521186_37= co->res;
+Obj v__3521312_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521185_37= co->res;
-Obj v__3519991_37 = R[1];
-saveCont(co, clofun88, 1, R);
-coraCall2(co, v__3521185_37, v__3519991_37, closureRef(R[0], 4));
+Obj v__3521311_37= co->res;
+Obj v__3520103_37 = R[1];
+saveCont(co, clofun89, 1, R);
+coraCall2(co, v__3521311_37, v__3520103_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521184_37= co->res;
-Obj v__3519991_37 = R[1];
-R[1] = v__3519991_37;
-saveCont(co, clofun88, 2, R);
+Obj v__3521310_37= co->res;
+Obj v__3520103_37 = R[1];
+R[1] = v__3520103_37;
+saveCont(co, clofun89, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun87(struct Cora* co, int label, Obj *R) {
+static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519984_37 = makeNative(co->gc, 4, clofun86, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521150_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521150_37) {
-Obj v__3521151_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521152_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3521151_37);
-if (True == v__3521152_37) {
-Obj v__3521153_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521154_37 = PRIM_ISCONS(v__3521153_37);
-if (True == v__3521154_37) {
-Obj v__3521155_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521156_37 = PRIM_CAR(v__3521155_37);
-Obj v__3519988_37 = v__3521156_37;
-Obj v__3521157_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521158_37 = PRIM_CDR(v__3521157_37);
-Obj v__3521159_37 = PRIM_ISCONS(v__3521158_37);
-if (True == v__3521159_37) {
-Obj v__3521160_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521161_37 = PRIM_CDR(v__3521160_37);
-Obj v__3521162_37 = PRIM_CAR(v__3521161_37);
-Obj v__3519989_37 = v__3521162_37;
-Obj v__3521163_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521164_37 = PRIM_CDR(v__3521163_37);
-Obj v__3521165_37 = PRIM_CDR(v__3521164_37);
-Obj v__3519990_37 = v__3521165_37;
-R[1] = v__3519989_37;
-R[2] = v__3519988_37;
-saveCont(co, clofun87, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3519990_37};
+Obj v__3520096_37 = makeNative(co->gc, 4, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521276_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521276_37) {
+Obj v__3521277_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521278_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521277_37);
+if (True == v__3521278_37) {
+Obj v__3521279_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521280_37 = PRIM_ISCONS(v__3521279_37);
+if (True == v__3521280_37) {
+Obj v__3521281_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521282_37 = PRIM_CAR(v__3521281_37);
+Obj v__3520100_37 = v__3521282_37;
+Obj v__3521283_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521284_37 = PRIM_CDR(v__3521283_37);
+Obj v__3521285_37 = PRIM_ISCONS(v__3521284_37);
+if (True == v__3521285_37) {
+Obj v__3521286_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521287_37 = PRIM_CDR(v__3521286_37);
+Obj v__3521288_37 = PRIM_CAR(v__3521287_37);
+Obj v__3520101_37 = v__3521288_37;
+Obj v__3521289_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521290_37 = PRIM_CDR(v__3521289_37);
+Obj v__3521291_37 = PRIM_CDR(v__3521290_37);
+Obj v__3520102_37 = v__3521291_37;
+R[1] = v__3520101_37;
+R[2] = v__3520100_37;
+saveCont(co, clofun88, 8, R);
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3520102_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3520096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3520096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3520096_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3520096_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521173_37= co->res;
+Obj v__3521299_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521172_37= co->res;
-Obj v__3519988_37 = R[1];
-saveCont(co, clofun87, 1, R);
-coraCall2(co, v__3521172_37, v__3519988_37, closureRef(R[0], 4));
+Obj v__3521298_37= co->res;
+Obj v__3520100_37 = R[1];
+saveCont(co, clofun88, 1, R);
+coraCall2(co, v__3521298_37, v__3520100_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521171_37= co->res;
-Obj v__3519988_37 = R[1];
-R[1] = v__3519988_37;
-saveCont(co, clofun87, 2, R);
+Obj v__3521297_37= co->res;
+Obj v__3520100_37 = R[1];
+R[1] = v__3520100_37;
+saveCont(co, clofun88, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3521170_37= co->res;
-Obj v__3519988_37 = R[1];
-R[1] = v__3519988_37;
-saveCont(co, clofun87, 3, R);
+Obj v__3521296_37= co->res;
+Obj v__3520100_37 = R[1];
+R[1] = v__3520100_37;
+saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3521169_37= co->res;
-Obj v__3519989_37 = R[1];
-Obj v__3519988_37 = R[2];
-R[1] = v__3519988_37;
-saveCont(co, clofun87, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519989_37);
+Obj v__3521295_37= co->res;
+Obj v__3520101_37 = R[1];
+Obj v__3520100_37 = R[2];
+R[1] = v__3520100_37;
+saveCont(co, clofun88, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520101_37);
 return;
 }
 case 6:
 {
-Obj v__3521168_37= co->res;
-Obj v__3519989_37 = R[1];
-Obj v__3519988_37 = R[2];
-R[1] = v__3519989_37;
-R[2] = v__3519988_37;
-saveCont(co, clofun87, 5, R);
+Obj v__3521294_37= co->res;
+Obj v__3520101_37 = R[1];
+Obj v__3520100_37 = R[2];
+R[1] = v__3520101_37;
+R[2] = v__3520100_37;
+saveCont(co, clofun88, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3521167_37= co->res;
-Obj v__3519989_37 = R[1];
-Obj v__3519988_37 = R[2];
-R[1] = v__3519989_37;
-R[2] = v__3519988_37;
-saveCont(co, clofun87, 6, R);
+Obj v__3521293_37= co->res;
+Obj v__3520101_37 = R[1];
+Obj v__3520100_37 = R[2];
+R[1] = v__3520101_37;
+R[2] = v__3520100_37;
+saveCont(co, clofun88, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3521166_37= co->res;
-Obj v__3519989_37 = R[1];
-Obj v__3519988_37 = R[2];
-R[1] = v__3519989_37;
-R[2] = v__3519988_37;
-saveCont(co, clofun87, 7, R);
+Obj v__3521292_37= co->res;
+Obj v__3520101_37 = R[1];
+Obj v__3520100_37 = R[2];
+R[1] = v__3520101_37;
+R[2] = v__3520100_37;
+saveCont(co, clofun88, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
 }
 }
 }
 
-static void clofun86(struct Cora* co, int label, Obj *R) {
+static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521127_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521127_37) {
-Obj v__3521128_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519985_37 = v__3521128_37;
-Obj v__3521129_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519986_37 = v__3521129_37;
-R[1] = v__3519985_37;
-R[2] = v__3519986_37;
-saveCont(co, clofun86, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519986_37);
+Obj v__3521253_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521253_37) {
+Obj v__3521254_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520097_37 = v__3521254_37;
+Obj v__3521255_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520098_37 = v__3521255_37;
+R[1] = v__3520097_37;
+R[2] = v__3520098_37;
+saveCont(co, clofun87, 18, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520098_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3521141_37= co->res;
+Obj v__3521267_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3521140_37= co->res;
-Obj v__3519987_37 = R[1];
-saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519987_37);
+Obj v__3521266_37= co->res;
+Obj v__3520099_37 = R[1];
+saveCont(co, clofun87, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520099_37);
 return;
 }
 case 3:
 {
-Obj v__3521139_37= co->res;
-Obj v__3519987_37 = R[1];
-R[1] = v__3519987_37;
-saveCont(co, clofun86, 2, R);
+Obj v__3521265_37= co->res;
+Obj v__3520099_37 = R[1];
+R[1] = v__3520099_37;
+saveCont(co, clofun87, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3521138_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-R[1] = v__3519987_37;
-saveCont(co, clofun86, 3, R);
-coraCall2(co, v__3521138_37, v__3519985_37, closureRef(R[0], 4));
+Obj v__3521264_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+R[1] = v__3520099_37;
+saveCont(co, clofun87, 3, R);
+coraCall2(co, v__3521264_37, v__3520097_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3521137_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-saveCont(co, clofun86, 4, R);
+Obj v__3521263_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+saveCont(co, clofun87, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3521136_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-saveCont(co, clofun86, 5, R);
+Obj v__3521262_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3521135_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-saveCont(co, clofun86, 6, R);
+Obj v__3521261_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+saveCont(co, clofun87, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3521134_37= co->res;
-Obj v__3519986_37 = R[1];
-Obj v__3519985_37 = R[2];
-Obj v__3519987_37 = R[3];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-saveCont(co, clofun86, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519986_37};
+Obj v__3521260_37= co->res;
+Obj v__3520098_37 = R[1];
+Obj v__3520097_37 = R[2];
+Obj v__3520099_37 = R[3];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+saveCont(co, clofun87, 7, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520098_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3521133_37= co->res;
-Obj v__3519986_37 = R[1];
-Obj v__3519985_37 = R[2];
-Obj v__3519987_37 = R[3];
-R[1] = v__3519986_37;
-R[2] = v__3519985_37;
-R[3] = v__3519987_37;
-saveCont(co, clofun86, 8, R);
+Obj v__3521259_37= co->res;
+Obj v__3520098_37 = R[1];
+Obj v__3520097_37 = R[2];
+Obj v__3520099_37 = R[3];
+R[1] = v__3520098_37;
+R[2] = v__3520097_37;
+R[3] = v__3520099_37;
+saveCont(co, clofun87, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3521132_37= co->res;
-Obj v__3519986_37 = R[1];
-Obj v__3519985_37 = R[2];
-Obj v__3519987_37 = R[3];
-R[1] = v__3519986_37;
-R[2] = v__3519985_37;
-R[3] = v__3519987_37;
-saveCont(co, clofun86, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519987_37);
+Obj v__3521258_37= co->res;
+Obj v__3520098_37 = R[1];
+Obj v__3520097_37 = R[2];
+Obj v__3520099_37 = R[3];
+R[1] = v__3520098_37;
+R[2] = v__3520097_37;
+R[3] = v__3520099_37;
+saveCont(co, clofun87, 9, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520099_37);
 return;
 }
 case 11:
 {
-Obj v__3521149_37= co->res;
+Obj v__3521275_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3521148_37= co->res;
-Obj v__3519986_37 = R[1];
-saveCont(co, clofun86, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3519986_37};
+Obj v__3521274_37= co->res;
+Obj v__3520098_37 = R[1];
+saveCont(co, clofun87, 11, R);
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520098_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3521146_37= co->res;
-Obj v__3519987_37 = R[1];
-Obj v__3519986_37 = R[2];
-Obj v__3521147_37 = PRIM_GT(v__3519987_37, MAKE_NUMBER(0));
-if (True == v__3521147_37) {
-R[1] = v__3519986_37;
-saveCont(co, clofun86, 12, R);
+Obj v__3521272_37= co->res;
+Obj v__3520099_37 = R[1];
+Obj v__3520098_37 = R[2];
+Obj v__3521273_37 = PRIM_GT(v__3520099_37, MAKE_NUMBER(0));
+if (True == v__3521273_37) {
+R[1] = v__3520098_37;
+saveCont(co, clofun87, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 } else {
@@ -4341,74 +4344,74 @@ return;
 }
 case 14:
 {
-Obj v__3521145_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-Obj v__3519986_37 = R[3];
-R[1] = v__3519987_37;
-R[2] = v__3519986_37;
-saveCont(co, clofun86, 13, R);
-coraCall2(co, v__3521145_37, v__3519985_37, closureRef(R[0], 4));
+Obj v__3521271_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+Obj v__3520098_37 = R[3];
+R[1] = v__3520099_37;
+R[2] = v__3520098_37;
+saveCont(co, clofun87, 13, R);
+coraCall2(co, v__3521271_37, v__3520097_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3521144_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-Obj v__3519986_37 = R[3];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-R[3] = v__3519986_37;
-saveCont(co, clofun86, 14, R);
+Obj v__3521270_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+Obj v__3520098_37 = R[3];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+R[3] = v__3520098_37;
+saveCont(co, clofun87, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3521143_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-Obj v__3519986_37 = R[3];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-R[3] = v__3519986_37;
-saveCont(co, clofun86, 15, R);
+Obj v__3521269_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+Obj v__3520098_37 = R[3];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+R[3] = v__3520098_37;
+saveCont(co, clofun87, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3521142_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519987_37 = R[2];
-Obj v__3519986_37 = R[3];
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-R[3] = v__3519986_37;
-saveCont(co, clofun86, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3519987_37);
+Obj v__3521268_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520099_37 = R[2];
+Obj v__3520098_37 = R[3];
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+R[3] = v__3520098_37;
+saveCont(co, clofun87, 16, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520099_37);
 return;
 }
 case 18:
 {
-Obj v__3521130_37= co->res;
-Obj v__3519985_37 = R[1];
-Obj v__3519986_37 = R[2];
-Obj v__3519987_37 = v__3521130_37;
-Obj v__3521131_37 = PRIM_GT(v__3519987_37, MAKE_NUMBER(4));
-if (True == v__3521131_37) {
-R[1] = v__3519986_37;
-R[2] = v__3519985_37;
-R[3] = v__3519987_37;
-saveCont(co, clofun86, 10, R);
+Obj v__3521256_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520098_37 = R[2];
+Obj v__3520099_37 = v__3521256_37;
+Obj v__3521257_37 = PRIM_GT(v__3520099_37, MAKE_NUMBER(4));
+if (True == v__3521257_37) {
+R[1] = v__3520098_37;
+R[2] = v__3520097_37;
+R[3] = v__3520099_37;
+saveCont(co, clofun87, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3519985_37;
-R[2] = v__3519987_37;
-R[3] = v__3519986_37;
-saveCont(co, clofun86, 17, R);
+R[1] = v__3520097_37;
+R[2] = v__3520099_37;
+R[3] = v__3520098_37;
+saveCont(co, clofun87, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
 }
@@ -4416,211 +4419,211 @@ return;
 }
 }
 
-static void clofun85(struct Cora* co, int label, Obj *R) {
+static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519614_37 = R[1];
-Obj v__3519615_37 = R[2];
-Obj v__3519616_37 = R[3];
-Obj v__3519617_37 = R[4];
-Obj v__3519618_37 = R[5];
+Obj v__3519723_37 = R[1];
+Obj v__3519724_37 = R[2];
+Obj v__3519725_37 = R[3];
+Obj v__3519726_37 = R[4];
+Obj v__3519727_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun84, 2, 4, v__3519614_37, v__3519615_37, v__3519616_37, v__3519617_37), MAKE_NUMBER(1), v__3519618_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun85, 2, 4, v__3519723_37, v__3519724_37, v__3519725_37, v__3519726_37), MAKE_NUMBER(1), v__3519727_37);
 return;
 }
 }
 }
 
-static void clofun84(struct Cora* co, int label, Obj *R) {
+static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519619_37 = R[1];
-Obj v__3519620_37 = R[2];
-R[1] = v__3519620_37;
-R[2] = v__3519619_37;
-saveCont(co, clofun84, 5, R);
+Obj v__3519728_37 = R[1];
+Obj v__3519729_37 = R[2];
+R[1] = v__3519729_37;
+R[2] = v__3519728_37;
+saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3521122_37= co->res;
-Obj v__3519619_37 = R[1];
-Obj v__3521123_37 = PRIM_ADD(v__3519619_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521123_37);
+Obj v__3521248_37= co->res;
+Obj v__3519728_37 = R[1];
+Obj v__3521249_37 = PRIM_ADD(v__3519728_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521249_37);
 return;
 }
 case 2:
 {
-Obj v__3521121_37= co->res;
-Obj v__3519619_37 = R[1];
-R[1] = v__3519619_37;
-saveCont(co, clofun84, 1, R);
+Obj v__3521247_37= co->res;
+Obj v__3519728_37 = R[1];
+R[1] = v__3519728_37;
+saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3521120_37= co->res;
-Obj v__3519619_37 = R[1];
-R[1] = v__3519619_37;
-saveCont(co, clofun84, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519619_37);
+Obj v__3521246_37= co->res;
+Obj v__3519728_37 = R[1];
+R[1] = v__3519728_37;
+saveCont(co, clofun85, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519728_37);
 return;
 }
 case 4:
 {
-Obj v__3521119_37= co->res;
-Obj v__3519619_37 = R[1];
-R[1] = v__3519619_37;
-saveCont(co, clofun84, 3, R);
+Obj v__3521245_37= co->res;
+Obj v__3519728_37 = R[1];
+R[1] = v__3519728_37;
+saveCont(co, clofun85, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3521118_37= co->res;
-Obj v__3519620_37 = R[1];
-Obj v__3519619_37 = R[2];
-R[1] = v__3519619_37;
-saveCont(co, clofun84, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519620_37};
+Obj v__3521244_37= co->res;
+Obj v__3519729_37 = R[1];
+Obj v__3519728_37 = R[2];
+R[1] = v__3519728_37;
+saveCont(co, clofun85, 4, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519729_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 }
 }
 
-static void clofun83(struct Cora* co, int label, Obj *R) {
+static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519607_37 = R[1];
-Obj v__3519608_37 = R[2];
-Obj v__3519609_37 = R[3];
-Obj v__3519610_37 = R[4];
-Obj v__3519611_37 = R[5];
+Obj v__3519716_37 = R[1];
+Obj v__3519717_37 = R[2];
+Obj v__3519718_37 = R[3];
+Obj v__3519719_37 = R[4];
+Obj v__3519720_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun82, 2, 4, v__3519607_37, v__3519608_37, v__3519609_37, v__3519610_37), MAKE_NUMBER(1), v__3519611_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun83, 2, 4, v__3519716_37, v__3519717_37, v__3519718_37, v__3519719_37), MAKE_NUMBER(1), v__3519720_37);
 return;
 }
 }
 }
 
-static void clofun82(struct Cora* co, int label, Obj *R) {
+static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519612_37 = R[1];
-Obj v__3519613_37 = R[2];
-R[1] = v__3519613_37;
-R[2] = v__3519612_37;
-saveCont(co, clofun82, 5, R);
+Obj v__3519721_37 = R[1];
+Obj v__3519722_37 = R[2];
+R[1] = v__3519722_37;
+R[2] = v__3519721_37;
+saveCont(co, clofun83, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3521115_37= co->res;
-Obj v__3519612_37 = R[1];
-Obj v__3521116_37 = PRIM_ADD(v__3519612_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521116_37);
+Obj v__3521241_37= co->res;
+Obj v__3519721_37 = R[1];
+Obj v__3521242_37 = PRIM_ADD(v__3519721_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521242_37);
 return;
 }
 case 2:
 {
-Obj v__3521114_37= co->res;
-Obj v__3519612_37 = R[1];
-R[1] = v__3519612_37;
-saveCont(co, clofun82, 1, R);
+Obj v__3521240_37= co->res;
+Obj v__3519721_37 = R[1];
+R[1] = v__3519721_37;
+saveCont(co, clofun83, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3521113_37= co->res;
-Obj v__3519613_37 = R[1];
-Obj v__3519612_37 = R[2];
-R[1] = v__3519612_37;
-saveCont(co, clofun82, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519613_37};
+Obj v__3521239_37= co->res;
+Obj v__3519722_37 = R[1];
+Obj v__3519721_37 = R[2];
+R[1] = v__3519721_37;
+saveCont(co, clofun83, 2, R);
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519722_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3521112_37= co->res;
-Obj v__3519613_37 = R[1];
-Obj v__3519612_37 = R[2];
-R[1] = v__3519613_37;
-R[2] = v__3519612_37;
-saveCont(co, clofun82, 3, R);
+Obj v__3521238_37= co->res;
+Obj v__3519722_37 = R[1];
+Obj v__3519721_37 = R[2];
+R[1] = v__3519722_37;
+R[2] = v__3519721_37;
+saveCont(co, clofun83, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3521111_37= co->res;
-Obj v__3519613_37 = R[1];
-Obj v__3519612_37 = R[2];
-R[1] = v__3519613_37;
-R[2] = v__3519612_37;
-saveCont(co, clofun82, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519612_37);
+Obj v__3521237_37= co->res;
+Obj v__3519722_37 = R[1];
+Obj v__3519721_37 = R[2];
+R[1] = v__3519722_37;
+R[2] = v__3519721_37;
+saveCont(co, clofun83, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519721_37);
 return;
 }
 }
 }
 
-static void clofun81(struct Cora* co, int label, Obj *R) {
+static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519605_37 = R[1];
-Obj v__3519606_37 = R[2];
+Obj v__3519714_37 = R[1];
+Obj v__3519715_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v__3519605_37, v__3519606_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v__3519714_37, v__3519715_37);
 return;
 }
 }
 }
 
-static void clofun80(struct Cora* co, int label, Obj *R) {
+static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519602_37 = R[1];
-Obj v__3519603_37 = R[2];
-Obj v__3519604_37 = R[3];
-R[1] = v__3519602_37;
-R[2] = v__3519604_37;
-R[3] = v__3519603_37;
-saveCont(co, clofun80, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519604_37);
+Obj v__3519711_37 = R[1];
+Obj v__3519712_37 = R[2];
+Obj v__3519713_37 = R[3];
+R[1] = v__3519711_37;
+R[2] = v__3519713_37;
+R[3] = v__3519712_37;
+saveCont(co, clofun81, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519713_37);
 return;
 }
 case 1:
 {
-Obj v__3521104_37= co->res;
-Obj v__3519602_37 = R[1];
-Obj v__3519604_37 = R[2];
-Obj v__3519603_37 = R[3];
-if (True == v__3521104_37) {
+Obj v__3521230_37= co->res;
+Obj v__3519711_37 = R[1];
+Obj v__3519713_37 = R[2];
+Obj v__3519712_37 = R[3];
+if (True == v__3521230_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3521105_37 = PRIM_CAR(v__3519604_37);
-Obj v__3521106_37 = PRIM_EQ(v__3519603_37, v__3521105_37);
-if (True == v__3521106_37) {
-coraReturn(co, v__3519602_37);
+Obj v__3521231_37 = PRIM_CAR(v__3519713_37);
+Obj v__3521232_37 = PRIM_EQ(v__3519712_37, v__3521231_37);
+if (True == v__3521232_37) {
+coraReturn(co, v__3519711_37);
 return;
 } else {
-Obj v__3521107_37 = PRIM_ADD(v__3519602_37, MAKE_NUMBER(1));
-Obj v__3521108_37 = PRIM_CDR(v__3519604_37);
+Obj v__3521233_37 = PRIM_ADD(v__3519711_37, MAKE_NUMBER(1));
+Obj v__3521234_37 = PRIM_CDR(v__3519713_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3521107_37, v__3519603_37, v__3521108_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3521233_37, v__3519712_37, v__3521234_37);
 return;
 }
 }
@@ -4628,339 +4631,339 @@ return;
 }
 }
 
-static void clofun79(struct Cora* co, int label, Obj *R) {
+static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519599_37 = R[1];
-Obj v__3519600_37 = R[2];
-R[1] = v__3519599_37;
-R[2] = v__3519600_37;
-saveCont(co, clofun79, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519600_37);
+Obj v__3519708_37 = R[1];
+Obj v__3519709_37 = R[2];
+R[1] = v__3519708_37;
+R[2] = v__3519709_37;
+saveCont(co, clofun80, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519709_37);
 return;
 }
 case 1:
 {
-Obj v__3521100_37= co->res;
-Obj v__3519599_37 = R[1];
-Obj v__3519972_37 = R[2];
-Obj v__3519600_37 = R[3];
-if (True == v__3521100_37) {
+Obj v__3521226_37= co->res;
+Obj v__3519708_37 = R[1];
+Obj v__3520084_37 = R[2];
+Obj v__3519709_37 = R[3];
+if (True == v__3521226_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521101_37 = makeCons(co->gc, v__3519599_37, v__3519972_37);
-Obj v__3521102_37 = primSet(co, v__3519600_37, v__3521101_37);
-coraReturn(co, v__3521102_37);
+Obj v__3521227_37 = makeCons(co->gc, v__3519708_37, v__3520084_37);
+Obj v__3521228_37 = primSet(co, v__3519709_37, v__3521227_37);
+coraReturn(co, v__3521228_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3521099_37= co->res;
-Obj v__3519599_37 = R[1];
-Obj v__3519600_37 = R[2];
-Obj v__3519972_37 = v__3521099_37;
-R[1] = v__3519599_37;
-R[2] = v__3519972_37;
-R[3] = v__3519600_37;
-saveCont(co, clofun79, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519599_37, v__3519972_37);
+Obj v__3521225_37= co->res;
+Obj v__3519708_37 = R[1];
+Obj v__3519709_37 = R[2];
+Obj v__3520084_37 = v__3521225_37;
+R[1] = v__3519708_37;
+R[2] = v__3520084_37;
+R[3] = v__3519709_37;
+saveCont(co, clofun80, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519708_37, v__3520084_37);
 return;
 }
 }
 }
 
-static void clofun78(struct Cora* co, int label, Obj *R) {
+static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519596_37 = R[1];
-Obj v__3519597_37 = R[2];
-Obj v__3521092_37 = primGenSym(co);
-Obj v__3519971_37 = v__3521092_37;
-R[1] = v__3519596_37;
-R[2] = v__3519971_37;
-saveCont(co, clofun78, 1, R);
-coraCall1(co, v__3519597_37, v__3519971_37);
+Obj v__3519705_37 = R[1];
+Obj v__3519706_37 = R[2];
+Obj v__3521218_37 = primGenSym(co);
+Obj v__3520083_37 = v__3521218_37;
+R[1] = v__3519705_37;
+R[2] = v__3520083_37;
+saveCont(co, clofun79, 1, R);
+coraCall1(co, v__3519706_37, v__3520083_37);
 return;
 }
 case 1:
 {
-Obj v__3521093_37= co->res;
-Obj v__3519596_37 = R[1];
-Obj v__3519971_37 = R[2];
-Obj v__3521094_37 = makeCons(co->gc, v__3521093_37, Nil);
-Obj v__3521095_37 = makeCons(co->gc, v__3519596_37, v__3521094_37);
-Obj v__3521096_37 = makeCons(co->gc, v__3519971_37, v__3521095_37);
-Obj v__3521097_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3521096_37);
-coraReturn(co, v__3521097_37);
+Obj v__3521219_37= co->res;
+Obj v__3519705_37 = R[1];
+Obj v__3520083_37 = R[2];
+Obj v__3521220_37 = makeCons(co->gc, v__3521219_37, Nil);
+Obj v__3521221_37 = makeCons(co->gc, v__3519705_37, v__3521220_37);
+Obj v__3521222_37 = makeCons(co->gc, v__3520083_37, v__3521221_37);
+Obj v__3521223_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3521222_37);
+coraReturn(co, v__3521223_37);
 return;
 }
 }
 }
 
-static void clofun77(struct Cora* co, int label, Obj *R) {
+static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519591_37 = R[1];
-Obj v__3519592_37 = R[2];
-R[1] = v__3519592_37;
-R[2] = v__3519591_37;
-saveCont(co, clofun77, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519591_37, MAKE_NUMBER(0));
+Obj v__3519700_37 = R[1];
+Obj v__3519701_37 = R[2];
+R[1] = v__3519701_37;
+R[2] = v__3519700_37;
+saveCont(co, clofun78, 3, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519700_37, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3521090_37= co->res;
-Obj v__3519591_37 = R[1];
-Obj v__3519970_37 = R[2];
+Obj v__3521216_37= co->res;
+Obj v__3519700_37 = R[1];
+Obj v__3520082_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519591_37, MAKE_NUMBER(1), v__3519970_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519700_37, MAKE_NUMBER(1), v__3520082_37);
 return;
 }
 case 2:
 {
-Obj v__3521085_37= co->res;
-Obj v__3519592_37 = R[1];
-Obj v__3519968_37 = R[2];
-Obj v__3519591_37 = R[3];
-Obj v__3519969_37 = v__3521085_37;
-Obj v__3521086_37 = makeCons(co->gc, v__3519592_37, Nil);
-Obj v__3521087_37 = makeCons(co->gc, v__3519968_37, v__3521086_37);
-Obj v__3521088_37 = makeCons(co->gc, v__3521087_37, v__3519969_37);
-Obj v__3519970_37 = v__3521088_37;
-Obj v__3521089_37 = PRIM_ADD(v__3519968_37, MAKE_NUMBER(1));
-R[1] = v__3519591_37;
-R[2] = v__3519970_37;
-saveCont(co, clofun77, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519591_37, MAKE_NUMBER(0), v__3521089_37);
+Obj v__3521211_37= co->res;
+Obj v__3519701_37 = R[1];
+Obj v__3520080_37 = R[2];
+Obj v__3519700_37 = R[3];
+Obj v__3520081_37 = v__3521211_37;
+Obj v__3521212_37 = makeCons(co->gc, v__3519701_37, Nil);
+Obj v__3521213_37 = makeCons(co->gc, v__3520080_37, v__3521212_37);
+Obj v__3521214_37 = makeCons(co->gc, v__3521213_37, v__3520081_37);
+Obj v__3520082_37 = v__3521214_37;
+Obj v__3521215_37 = PRIM_ADD(v__3520080_37, MAKE_NUMBER(1));
+R[1] = v__3519700_37;
+R[2] = v__3520082_37;
+saveCont(co, clofun78, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519700_37, MAKE_NUMBER(0), v__3521215_37);
 return;
 }
 case 3:
 {
-Obj v__3521084_37= co->res;
-Obj v__3519592_37 = R[1];
-Obj v__3519591_37 = R[2];
-Obj v__3519968_37 = v__3521084_37;
-R[1] = v__3519592_37;
-R[2] = v__3519968_37;
-R[3] = v__3519591_37;
-saveCont(co, clofun77, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519591_37, MAKE_NUMBER(1));
+Obj v__3521210_37= co->res;
+Obj v__3519701_37 = R[1];
+Obj v__3519700_37 = R[2];
+Obj v__3520080_37 = v__3521210_37;
+R[1] = v__3519701_37;
+R[2] = v__3520080_37;
+R[3] = v__3519700_37;
+saveCont(co, clofun78, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519700_37, MAKE_NUMBER(1));
 return;
 }
 }
 }
 
-static void clofun76(struct Cora* co, int label, Obj *R) {
+static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519581_37 = R[1];
-Obj v__3519582_37 = R[2];
-Obj v__3519960_37 = makeNative(co->gc, 1, clofun75, 0, 2, v__3519581_37, v__3519582_37);
-Obj v__3521035_37 = PRIM_ISCONS(v__3519582_37);
-if (True == v__3521035_37) {
-Obj v__3521036_37 = PRIM_CAR(v__3519582_37);
-Obj v__3521037_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3521036_37);
-if (True == v__3521037_37) {
-Obj v__3521038_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521039_37 = PRIM_ISCONS(v__3521038_37);
-if (True == v__3521039_37) {
-Obj v__3521040_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521041_37 = PRIM_CAR(v__3521040_37);
-Obj v__3521042_37 = PRIM_ISCONS(v__3521041_37);
-if (True == v__3521042_37) {
-Obj v__3521043_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521044_37 = PRIM_CAR(v__3521043_37);
-Obj v__3521045_37 = PRIM_CAR(v__3521044_37);
-Obj v__3521046_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3521045_37);
-if (True == v__3521046_37) {
-Obj v__3521047_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521048_37 = PRIM_CAR(v__3521047_37);
-Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
-Obj v__3521050_37 = PRIM_ISCONS(v__3521049_37);
-if (True == v__3521050_37) {
-Obj v__3521051_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521052_37 = PRIM_CAR(v__3521051_37);
-Obj v__3521053_37 = PRIM_CDR(v__3521052_37);
-Obj v__3521054_37 = PRIM_CAR(v__3521053_37);
-Obj v__3519961_37 = v__3521054_37;
-Obj v__3521055_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521056_37 = PRIM_CAR(v__3521055_37);
-Obj v__3521057_37 = PRIM_CDR(v__3521056_37);
-Obj v__3521058_37 = PRIM_CDR(v__3521057_37);
-Obj v__3521059_37 = PRIM_ISCONS(v__3521058_37);
-if (True == v__3521059_37) {
-Obj v__3521060_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521061_37 = PRIM_CAR(v__3521060_37);
-Obj v__3521062_37 = PRIM_CDR(v__3521061_37);
-Obj v__3521063_37 = PRIM_CDR(v__3521062_37);
-Obj v__3521064_37 = PRIM_CAR(v__3521063_37);
-Obj v__3519962_37 = v__3521064_37;
-Obj v__3521065_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521066_37 = PRIM_CAR(v__3521065_37);
-Obj v__3521067_37 = PRIM_CDR(v__3521066_37);
-Obj v__3521068_37 = PRIM_CDR(v__3521067_37);
-Obj v__3521069_37 = PRIM_CDR(v__3521068_37);
-Obj v__3521070_37 = PRIM_EQ(Nil, v__3521069_37);
-if (True == v__3521070_37) {
-Obj v__3521071_37 = PRIM_CDR(v__3519582_37);
-Obj v__3521072_37 = PRIM_CDR(v__3521071_37);
-Obj v__3519963_37 = v__3521072_37;
-R[1] = v__3519581_37;
-R[2] = v__3519961_37;
-R[3] = v__3519963_37;
-saveCont(co, clofun76, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519581_37, v__3519962_37);
+Obj v__3519690_37 = R[1];
+Obj v__3519691_37 = R[2];
+Obj v__3520072_37 = makeNative(co->gc, 1, clofun76, 0, 2, v__3519690_37, v__3519691_37);
+Obj v__3521161_37 = PRIM_ISCONS(v__3519691_37);
+if (True == v__3521161_37) {
+Obj v__3521162_37 = PRIM_CAR(v__3519691_37);
+Obj v__3521163_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521162_37);
+if (True == v__3521163_37) {
+Obj v__3521164_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521165_37 = PRIM_ISCONS(v__3521164_37);
+if (True == v__3521165_37) {
+Obj v__3521166_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521167_37 = PRIM_CAR(v__3521166_37);
+Obj v__3521168_37 = PRIM_ISCONS(v__3521167_37);
+if (True == v__3521168_37) {
+Obj v__3521169_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521170_37 = PRIM_CAR(v__3521169_37);
+Obj v__3521171_37 = PRIM_CAR(v__3521170_37);
+Obj v__3521172_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521171_37);
+if (True == v__3521172_37) {
+Obj v__3521173_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521174_37 = PRIM_CAR(v__3521173_37);
+Obj v__3521175_37 = PRIM_CDR(v__3521174_37);
+Obj v__3521176_37 = PRIM_ISCONS(v__3521175_37);
+if (True == v__3521176_37) {
+Obj v__3521177_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521178_37 = PRIM_CAR(v__3521177_37);
+Obj v__3521179_37 = PRIM_CDR(v__3521178_37);
+Obj v__3521180_37 = PRIM_CAR(v__3521179_37);
+Obj v__3520073_37 = v__3521180_37;
+Obj v__3521181_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521182_37 = PRIM_CAR(v__3521181_37);
+Obj v__3521183_37 = PRIM_CDR(v__3521182_37);
+Obj v__3521184_37 = PRIM_CDR(v__3521183_37);
+Obj v__3521185_37 = PRIM_ISCONS(v__3521184_37);
+if (True == v__3521185_37) {
+Obj v__3521186_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521187_37 = PRIM_CAR(v__3521186_37);
+Obj v__3521188_37 = PRIM_CDR(v__3521187_37);
+Obj v__3521189_37 = PRIM_CDR(v__3521188_37);
+Obj v__3521190_37 = PRIM_CAR(v__3521189_37);
+Obj v__3520074_37 = v__3521190_37;
+Obj v__3521191_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521192_37 = PRIM_CAR(v__3521191_37);
+Obj v__3521193_37 = PRIM_CDR(v__3521192_37);
+Obj v__3521194_37 = PRIM_CDR(v__3521193_37);
+Obj v__3521195_37 = PRIM_CDR(v__3521194_37);
+Obj v__3521196_37 = PRIM_EQ(Nil, v__3521195_37);
+if (True == v__3521196_37) {
+Obj v__3521197_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521198_37 = PRIM_CDR(v__3521197_37);
+Obj v__3520075_37 = v__3521198_37;
+R[1] = v__3519690_37;
+R[2] = v__3520073_37;
+R[3] = v__3520075_37;
+saveCont(co, clofun77, 6, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519690_37, v__3520074_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519960_37);
+coraCall0(co, v__3520072_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521078_37= co->res;
-Obj v__3519967_37 = R[1];
-Obj v__3519963_37 = R[2];
-Obj v__3519965_37 = R[3];
-Obj v__3521079_37 = makeCons(co->gc, v__3519967_37, v__3519963_37);
-Obj v__3521080_37 = makeCons(co->gc, v__3521078_37, v__3521079_37);
-Obj v__3521081_37 = makeCons(co->gc, v__3519965_37, v__3521080_37);
-Obj v__3521082_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3521081_37);
-coraReturn(co, v__3521082_37);
+Obj v__3521204_37= co->res;
+Obj v__3520079_37 = R[1];
+Obj v__3520075_37 = R[2];
+Obj v__3520077_37 = R[3];
+Obj v__3521205_37 = makeCons(co->gc, v__3520079_37, v__3520075_37);
+Obj v__3521206_37 = makeCons(co->gc, v__3521204_37, v__3521205_37);
+Obj v__3521207_37 = makeCons(co->gc, v__3520077_37, v__3521206_37);
+Obj v__3521208_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3521207_37);
+coraReturn(co, v__3521208_37);
 return;
 }
 case 2:
 {
-Obj v__3521077_37= co->res;
-Obj v__3519961_37 = R[1];
-Obj v__3519967_37 = R[2];
-Obj v__3519963_37 = R[3];
-Obj v__3519965_37 = R[4];
-R[1] = v__3519967_37;
-R[2] = v__3519963_37;
-R[3] = v__3519965_37;
-saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519961_37);
+Obj v__3521203_37= co->res;
+Obj v__3520073_37 = R[1];
+Obj v__3520079_37 = R[2];
+Obj v__3520075_37 = R[3];
+Obj v__3520077_37 = R[4];
+R[1] = v__3520079_37;
+R[2] = v__3520075_37;
+R[3] = v__3520077_37;
+saveCont(co, clofun77, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520073_37);
 return;
 }
 case 3:
 {
-Obj v__3521076_37= co->res;
-Obj v__3519581_37 = R[1];
-Obj v__3519966_37 = R[2];
-Obj v__3519961_37 = R[3];
-Obj v__3519963_37 = R[4];
-Obj v__3519965_37 = R[5];
-Obj v__3519967_37 = v__3521076_37;
-R[1] = v__3519961_37;
-R[2] = v__3519967_37;
-R[3] = v__3519963_37;
-R[4] = v__3519965_37;
-saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3519581_37, v__3519966_37);
+Obj v__3521202_37= co->res;
+Obj v__3519690_37 = R[1];
+Obj v__3520078_37 = R[2];
+Obj v__3520073_37 = R[3];
+Obj v__3520075_37 = R[4];
+Obj v__3520077_37 = R[5];
+Obj v__3520079_37 = v__3521202_37;
+R[1] = v__3520073_37;
+R[2] = v__3520079_37;
+R[3] = v__3520075_37;
+R[4] = v__3520077_37;
+saveCont(co, clofun77, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3519690_37, v__3520078_37);
 return;
 }
 case 4:
 {
-Obj v__3521075_37= co->res;
-Obj v__3519581_37 = R[1];
-Obj v__3519961_37 = R[2];
-Obj v__3519963_37 = R[3];
-Obj v__3519965_37 = R[4];
-Obj v__3519966_37 = v__3521075_37;
-R[1] = v__3519581_37;
-R[2] = v__3519966_37;
-R[3] = v__3519961_37;
-R[4] = v__3519963_37;
-R[5] = v__3519965_37;
-saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519966_37);
+Obj v__3521201_37= co->res;
+Obj v__3519690_37 = R[1];
+Obj v__3520073_37 = R[2];
+Obj v__3520075_37 = R[3];
+Obj v__3520077_37 = R[4];
+Obj v__3520078_37 = v__3521201_37;
+R[1] = v__3519690_37;
+R[2] = v__3520078_37;
+R[3] = v__3520073_37;
+R[4] = v__3520075_37;
+R[5] = v__3520077_37;
+saveCont(co, clofun77, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3520078_37);
 return;
 }
 case 5:
 {
-Obj v__3521074_37= co->res;
-Obj v__3519964_37 = R[1];
-Obj v__3519581_37 = R[2];
-Obj v__3519961_37 = R[3];
-Obj v__3519963_37 = R[4];
-Obj v__3519965_37 = v__3521074_37;
-R[1] = v__3519581_37;
-R[2] = v__3519961_37;
-R[3] = v__3519963_37;
-R[4] = v__3519965_37;
-saveCont(co, clofun76, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3519961_37, v__3519964_37);
+Obj v__3521200_37= co->res;
+Obj v__3520076_37 = R[1];
+Obj v__3519690_37 = R[2];
+Obj v__3520073_37 = R[3];
+Obj v__3520075_37 = R[4];
+Obj v__3520077_37 = v__3521200_37;
+R[1] = v__3519690_37;
+R[2] = v__3520073_37;
+R[3] = v__3520075_37;
+R[4] = v__3520077_37;
+saveCont(co, clofun77, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3520073_37, v__3520076_37);
 return;
 }
 case 6:
 {
-Obj v__3521073_37= co->res;
-Obj v__3519581_37 = R[1];
-Obj v__3519961_37 = R[2];
-Obj v__3519963_37 = R[3];
-Obj v__3519964_37 = v__3521073_37;
-R[1] = v__3519964_37;
-R[2] = v__3519581_37;
-R[3] = v__3519961_37;
-R[4] = v__3519963_37;
-saveCont(co, clofun76, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519581_37, MAKE_NUMBER(0));
+Obj v__3521199_37= co->res;
+Obj v__3519690_37 = R[1];
+Obj v__3520073_37 = R[2];
+Obj v__3520075_37 = R[3];
+Obj v__3520076_37 = v__3521199_37;
+R[1] = v__3520076_37;
+R[2] = v__3519690_37;
+R[3] = v__3520073_37;
+R[4] = v__3520075_37;
+saveCont(co, clofun77, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519690_37, MAKE_NUMBER(0));
 return;
 }
 }
 }
 
-static void clofun75(struct Cora* co, int label, Obj *R) {
+static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521033_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521033_37) {
-saveCont(co, clofun75, 1, R);
+Obj v__3521159_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521159_37) {
+saveCont(co, clofun76, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
 } else {
@@ -4970,156 +4973,156 @@ return;
 }
 case 1:
 {
-Obj v__3521034_37= co->res;
+Obj v__3521160_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3521034_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521160_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun74(struct Cora* co, int label, Obj *R) {
+static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519576_37 = R[1];
-R[1] = v__3519576_37;
-saveCont(co, clofun74, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519576_37);
+Obj v__3519685_37 = R[1];
+R[1] = v__3519685_37;
+saveCont(co, clofun75, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519685_37);
 return;
 }
 case 1:
 {
-Obj v__3521031_37= co->res;
-Obj v__3521030_37 = R[1];
+Obj v__3521157_37= co->res;
+Obj v__3521156_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), makeNative(co->gc, 3, clofun73, 2, 0), v__3521030_37, v__3521031_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun74, 2, 0), v__3521156_37, v__3521157_37);
 return;
 }
 case 2:
 {
-Obj v__3521025_37= co->res;
-Obj v__3519576_37 = R[1];
-Obj v__3519958_37 = v__3521025_37;
-Obj v__3521030_37 = PRIM_ADD(v__3519958_37, MAKE_NUMBER(1));
-R[1] = v__3521030_37;
-saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519576_37);
+Obj v__3521151_37= co->res;
+Obj v__3519685_37 = R[1];
+Obj v__3520070_37 = v__3521151_37;
+Obj v__3521156_37 = PRIM_ADD(v__3520070_37, MAKE_NUMBER(1));
+R[1] = v__3521156_37;
+saveCont(co, clofun75, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519685_37);
 return;
 }
 case 3:
 {
-Obj v__3521024_37= co->res;
-Obj v__3519576_37 = R[1];
-R[1] = v__3519576_37;
-saveCont(co, clofun74, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3521024_37);
+Obj v__3521150_37= co->res;
+Obj v__3519685_37 = R[1];
+R[1] = v__3519685_37;
+saveCont(co, clofun75, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3521150_37);
 return;
 }
 }
 }
 
-static void clofun73(struct Cora* co, int label, Obj *R) {
+static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519578_37 = R[1];
-Obj v__3519579_37 = R[2];
-R[1] = v__3519578_37;
-saveCont(co, clofun73, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519579_37);
+Obj v__3519687_37 = R[1];
+Obj v__3519688_37 = R[2];
+R[1] = v__3519687_37;
+saveCont(co, clofun74, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519688_37);
 return;
 }
 case 1:
 {
-Obj v__3521027_37= co->res;
-Obj v__3519578_37 = R[1];
-Obj v__3521028_37 = PRIM_ADD(v__3521027_37, MAKE_NUMBER(1));
-Obj v__3519959_37 = v__3521028_37;
-Obj v__3521029_37 = PRIM_GT(v__3519959_37, v__3519578_37);
-if (True == v__3521029_37) {
-coraReturn(co, v__3519959_37);
+Obj v__3521153_37= co->res;
+Obj v__3519687_37 = R[1];
+Obj v__3521154_37 = PRIM_ADD(v__3521153_37, MAKE_NUMBER(1));
+Obj v__3520071_37 = v__3521154_37;
+Obj v__3521155_37 = PRIM_GT(v__3520071_37, v__3519687_37);
+if (True == v__3521155_37) {
+coraReturn(co, v__3520071_37);
 return;
 } else {
-coraReturn(co, v__3519578_37);
+coraReturn(co, v__3519687_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3521026_37= co->res;
-Obj v__3519578_37 = R[1];
-R[1] = v__3519578_37;
-saveCont(co, clofun73, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3521026_37);
+Obj v__3521152_37= co->res;
+Obj v__3519687_37 = R[1];
+R[1] = v__3519687_37;
+saveCont(co, clofun74, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3521152_37);
 return;
 }
 }
 }
 
-static void clofun72(struct Cora* co, int label, Obj *R) {
+static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519572_37 = R[1];
-Obj v__3519573_37 = R[2];
+Obj v__3519681_37 = R[1];
+Obj v__3519682_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519573_37, Nil, makeNative(co->gc, 3, clofun71, 2, 1, v__3519572_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519682_37, Nil, makeNative(co->gc, 3, clofun72, 2, 1, v__3519681_37));
 return;
 }
 }
 }
 
-static void clofun71(struct Cora* co, int label, Obj *R) {
+static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519574_37 = R[1];
-Obj v__3519575_37 = R[2];
-R[1] = v__3519574_37;
-saveCont(co, clofun71, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519575_37);
+Obj v__3519683_37 = R[1];
+Obj v__3519684_37 = R[2];
+R[1] = v__3519683_37;
+saveCont(co, clofun72, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519684_37);
 return;
 }
 case 1:
 {
-Obj v__3521019_37= co->res;
-Obj v__3519574_37 = R[1];
-Obj v__3521020_37 = makeCons(co->gc, v__3519574_37, v__3521019_37);
-Obj v__3521021_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521020_37);
-Obj v__3521022_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3521021_37);
-coraReturn(co, v__3521022_37);
+Obj v__3521145_37= co->res;
+Obj v__3519683_37 = R[1];
+Obj v__3521146_37 = makeCons(co->gc, v__3519683_37, v__3521145_37);
+Obj v__3521147_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521146_37);
+Obj v__3521148_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3521147_37);
+coraReturn(co, v__3521148_37);
 return;
 }
 }
 }
 
-static void clofun70(struct Cora* co, int label, Obj *R) {
+static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519556_37 = R[1];
-Obj v__3519557_37 = R[2];
-Obj v__3519558_37 = R[3];
-Obj v__3519559_37 = R[4];
-Obj v__3521013_37 = PRIM_EQ(Nil, v__3519556_37);
-if (True == v__3521013_37) {
+Obj v__3519665_37 = R[1];
+Obj v__3519666_37 = R[2];
+Obj v__3519667_37 = R[3];
+Obj v__3519668_37 = R[4];
+Obj v__3521139_37 = PRIM_EQ(Nil, v__3519665_37);
+if (True == v__3521139_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3519559_37, v__3519558_37, v__3519557_37);
+coraCall2(co, v__3519668_37, v__3519667_37, v__3519666_37);
 return;
 } else {
-Obj v__3521014_37 = PRIM_ISCONS(v__3519556_37);
-if (True == v__3521014_37) {
-Obj v__3521015_37 = PRIM_CAR(v__3519556_37);
-Obj v__3519956_37 = v__3521015_37;
-Obj v__3521016_37 = PRIM_CDR(v__3519556_37);
-Obj v__3519957_37 = v__3521016_37;
+Obj v__3521140_37 = PRIM_ISCONS(v__3519665_37);
+if (True == v__3521140_37) {
+Obj v__3521141_37 = PRIM_CAR(v__3519665_37);
+Obj v__3520068_37 = v__3521141_37;
+Obj v__3521142_37 = PRIM_CDR(v__3519665_37);
+Obj v__3520069_37 = v__3521142_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519956_37, v__3519557_37, makeNative(co->gc, 3, clofun69, 2, 3, v__3519957_37, v__3519558_37, v__3519559_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3520068_37, v__3519666_37, makeNative(co->gc, 3, clofun70, 2, 3, v__3520069_37, v__3519667_37, v__3519668_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -5127,131 +5130,131 @@ return;
 }
 }
 
-static void clofun69(struct Cora* co, int label, Obj *R) {
+static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519568_37 = R[1];
-Obj v__3519569_37 = R[2];
+Obj v__3519677_37 = R[1];
+Obj v__3519678_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v__3519569_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun68, 2, 2, closureRef(R[0], 2), v__3519568_37));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v__3519678_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun69, 2, 2, closureRef(R[0], 2), v__3519677_37));
 return;
 }
 }
 }
 
-static void clofun68(struct Cora* co, int label, Obj *R) {
+static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519570_37 = R[1];
-Obj v__3519571_37 = R[2];
-Obj v__3521017_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519570_37);
+Obj v__3519679_37 = R[1];
+Obj v__3519680_37 = R[2];
+Obj v__3521143_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519679_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3521017_37, v__3519571_37);
+coraCall2(co, closureRef(R[0], 0), v__3521143_37, v__3519680_37);
 return;
 }
 }
 }
 
-static void clofun67(struct Cora* co, int label, Obj *R) {
+static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519537_37 = R[1];
-Obj v__3519538_37 = R[2];
-Obj v__3519539_37 = R[3];
-Obj v__3519949_37 = makeNative(co->gc, 2, clofun66, 1, 3, v__3519537_37, v__3519538_37, v__3519539_37);
-Obj v__3521010_37 = primIsSymbol(v__3519537_37);
-if (True == v__3521010_37) {
+Obj v__3519646_37 = R[1];
+Obj v__3519647_37 = R[2];
+Obj v__3519648_37 = R[3];
+Obj v__3520061_37 = makeNative(co->gc, 2, clofun67, 1, 3, v__3519646_37, v__3519647_37, v__3519648_37);
+Obj v__3521136_37 = primIsSymbol(v__3519646_37);
+if (True == v__3521136_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519949_37, True);
+coraCall1(co, v__3520061_37, True);
 return;
 } else {
-R[1] = v__3519949_37;
-saveCont(co, clofun67, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519537_37);
+R[1] = v__3520061_37;
+saveCont(co, clofun68, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519646_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521011_37= co->res;
-Obj v__3519949_37 = R[1];
-if (True == v__3521011_37) {
+Obj v__3521137_37= co->res;
+Obj v__3520061_37 = R[1];
+if (True == v__3521137_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519949_37, True);
+coraCall1(co, v__3520061_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519949_37, False);
+coraCall1(co, v__3520061_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun66(struct Cora* co, int label, Obj *R) {
+static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519948_37 = R[1];
-if (True == v__3519948_37) {
+Obj v__3520060_37 = R[1];
+if (True == v__3520060_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3519950_37 = makeNative(co->gc, 1, clofun64, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520986_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520986_37) {
-Obj v__3520987_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520988_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520987_37);
-if (True == v__3520988_37) {
-Obj v__3520989_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520990_37 = PRIM_ISCONS(v__3520989_37);
-if (True == v__3520990_37) {
-Obj v__3520991_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520992_37 = PRIM_CAR(v__3520991_37);
-Obj v__3519953_37 = v__3520992_37;
-Obj v__3520993_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520994_37 = PRIM_CDR(v__3520993_37);
-Obj v__3520995_37 = PRIM_ISCONS(v__3520994_37);
-if (True == v__3520995_37) {
-Obj v__3520996_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520997_37 = PRIM_CDR(v__3520996_37);
-Obj v__3520998_37 = PRIM_CAR(v__3520997_37);
-Obj v__3519954_37 = v__3520998_37;
-Obj v__3520999_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521000_37 = PRIM_CDR(v__3520999_37);
-Obj v__3521001_37 = PRIM_CDR(v__3521000_37);
-Obj v__3521002_37 = PRIM_EQ(Nil, v__3521001_37);
-if (True == v__3521002_37) {
+Obj v__3520062_37 = makeNative(co->gc, 1, clofun65, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521112_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521112_37) {
+Obj v__3521113_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521114_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521113_37);
+if (True == v__3521114_37) {
+Obj v__3521115_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521116_37 = PRIM_ISCONS(v__3521115_37);
+if (True == v__3521116_37) {
+Obj v__3521117_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521118_37 = PRIM_CAR(v__3521117_37);
+Obj v__3520065_37 = v__3521118_37;
+Obj v__3521119_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521120_37 = PRIM_CDR(v__3521119_37);
+Obj v__3521121_37 = PRIM_ISCONS(v__3521120_37);
+if (True == v__3521121_37) {
+Obj v__3521122_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521123_37 = PRIM_CDR(v__3521122_37);
+Obj v__3521124_37 = PRIM_CAR(v__3521123_37);
+Obj v__3520066_37 = v__3521124_37;
+Obj v__3521125_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521126_37 = PRIM_CDR(v__3521125_37);
+Obj v__3521127_37 = PRIM_CDR(v__3521126_37);
+Obj v__3521128_37 = PRIM_EQ(Nil, v__3521127_37);
+if (True == v__3521128_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519954_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun65, 2, 2, closureRef(R[0], 2), v__3519953_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3520066_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun66, 2, 2, closureRef(R[0], 2), v__3520065_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519950_37);
+coraCall0(co, v__3520062_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519950_37);
+coraCall0(co, v__3520062_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519950_37);
+coraCall0(co, v__3520062_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519950_37);
+coraCall0(co, v__3520062_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519950_37);
+coraCall0(co, v__3520062_37);
 return;
 }
 }
@@ -5259,160 +5262,160 @@ return;
 }
 }
 
-static void clofun65(struct Cora* co, int label, Obj *R) {
+static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519553_37 = R[1];
-Obj v__3519554_37 = R[2];
-R[1] = v__3519553_37;
-R[2] = v__3519554_37;
-saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519553_37);
+Obj v__3519662_37 = R[1];
+Obj v__3519663_37 = R[2];
+R[1] = v__3519662_37;
+R[2] = v__3519663_37;
+saveCont(co, clofun66, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519662_37);
 return;
 }
 case 1:
 {
-Obj v__3521004_37= co->res;
-Obj v__3519955_37 = R[1];
-Obj v__3519553_37 = R[2];
-Obj v__3519554_37 = R[3];
-Obj v__3521005_37 = PRIM_ADD(v__3521004_37, MAKE_NUMBER(1));
-Obj v__3521006_37 = makeCons(co->gc, v__3521005_37, v__3519955_37);
-Obj v__3521007_37 = makeCons(co->gc, closureRef(R[0], 1), v__3521006_37);
-Obj v__3521008_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3521007_37);
-Obj v__3521009_37 = makeCons(co->gc, v__3519553_37, v__3519554_37);
+Obj v__3521130_37= co->res;
+Obj v__3520067_37 = R[1];
+Obj v__3519662_37 = R[2];
+Obj v__3519663_37 = R[3];
+Obj v__3521131_37 = PRIM_ADD(v__3521130_37, MAKE_NUMBER(1));
+Obj v__3521132_37 = makeCons(co->gc, v__3521131_37, v__3520067_37);
+Obj v__3521133_37 = makeCons(co->gc, closureRef(R[0], 1), v__3521132_37);
+Obj v__3521134_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521133_37);
+Obj v__3521135_37 = makeCons(co->gc, v__3519662_37, v__3519663_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3521008_37, v__3521009_37);
+coraCall2(co, closureRef(R[0], 0), v__3521134_37, v__3521135_37);
 return;
 }
 case 2:
 {
-Obj v__3521003_37= co->res;
-Obj v__3519553_37 = R[1];
-Obj v__3519554_37 = R[2];
-Obj v__3519955_37 = v__3521003_37;
-R[1] = v__3519955_37;
-R[2] = v__3519553_37;
-R[3] = v__3519554_37;
-saveCont(co, clofun65, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3519554_37);
+Obj v__3521129_37= co->res;
+Obj v__3519662_37 = R[1];
+Obj v__3519663_37 = R[2];
+Obj v__3520067_37 = v__3521129_37;
+R[1] = v__3520067_37;
+R[2] = v__3519662_37;
+R[3] = v__3519663_37;
+saveCont(co, clofun66, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3519663_37);
 return;
 }
 }
 }
 
-static void clofun64(struct Cora* co, int label, Obj *R) {
+static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520982_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520982_37) {
-Obj v__3520983_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519951_37 = v__3520983_37;
-Obj v__3520984_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519952_37 = v__3520984_37;
-Obj v__3520985_37 = makeCons(co->gc, v__3519951_37, v__3519952_37);
+Obj v__3521108_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521108_37) {
+Obj v__3521109_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520063_37 = v__3521109_37;
+Obj v__3521110_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520064_37 = v__3521110_37;
+Obj v__3521111_37 = makeCons(co->gc, v__3520063_37, v__3520064_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3520985_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3521111_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun63(struct Cora* co, int label, Obj *R) {
+static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519496_37 = R[1];
-Obj v__3519497_37 = R[2];
-R[1] = v__3519497_37;
-R[2] = v__3519496_37;
-saveCont(co, clofun63, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519497_37);
+Obj v__3519605_37 = R[1];
+Obj v__3519606_37 = R[2];
+R[1] = v__3519606_37;
+R[2] = v__3519605_37;
+saveCont(co, clofun64, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519606_37);
 return;
 }
 case 1:
 {
-Obj v__3520977_37= co->res;
-Obj v__3519945_37 = R[1];
-Obj v__3520978_37 = makeCons(co->gc, v__3520977_37, Nil);
-Obj v__3520979_37 = makeCons(co->gc, v__3519945_37, v__3520978_37);
-Obj v__3520980_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520979_37);
-coraReturn(co, v__3520980_37);
+Obj v__3521103_37= co->res;
+Obj v__3520057_37 = R[1];
+Obj v__3521104_37 = makeCons(co->gc, v__3521103_37, Nil);
+Obj v__3521105_37 = makeCons(co->gc, v__3520057_37, v__3521104_37);
+Obj v__3521106_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3521105_37);
+coraReturn(co, v__3521106_37);
 return;
 }
 case 2:
 {
-Obj v__3520905_37= co->res;
-Obj v__3519497_37 = R[1];
-Obj v__3519496_37 = R[2];
-if (True == v__3520905_37) {
-coraReturn(co, v__3519497_37);
+Obj v__3521031_37= co->res;
+Obj v__3519606_37 = R[1];
+Obj v__3519605_37 = R[2];
+if (True == v__3521031_37) {
+coraReturn(co, v__3519606_37);
 return;
 } else {
-Obj v__3520906_37 = primIsSymbol(v__3519497_37);
-if (True == v__3520906_37) {
-coraReturn(co, v__3519497_37);
+Obj v__3521032_37 = primIsSymbol(v__3519606_37);
+if (True == v__3521032_37) {
+coraReturn(co, v__3519606_37);
 return;
 } else {
-Obj v__3519934_37 = makeNative(co->gc, 4, clofun62, 0, 2, v__3519497_37, v__3519496_37);
-Obj v__3520960_37 = PRIM_ISCONS(v__3519497_37);
-if (True == v__3520960_37) {
-Obj v__3520961_37 = PRIM_CAR(v__3519497_37);
-Obj v__3520962_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520961_37);
-if (True == v__3520962_37) {
-Obj v__3520963_37 = PRIM_CDR(v__3519497_37);
-Obj v__3520964_37 = PRIM_ISCONS(v__3520963_37);
-if (True == v__3520964_37) {
-Obj v__3520965_37 = PRIM_CDR(v__3519497_37);
-Obj v__3520966_37 = PRIM_CAR(v__3520965_37);
-Obj v__3519945_37 = v__3520966_37;
-Obj v__3520967_37 = PRIM_CDR(v__3519497_37);
-Obj v__3520968_37 = PRIM_CDR(v__3520967_37);
-Obj v__3520969_37 = PRIM_ISCONS(v__3520968_37);
-if (True == v__3520969_37) {
-Obj v__3520970_37 = PRIM_CDR(v__3519497_37);
-Obj v__3520971_37 = PRIM_CDR(v__3520970_37);
-Obj v__3520972_37 = PRIM_CAR(v__3520971_37);
-Obj v__3519946_37 = v__3520972_37;
-Obj v__3520973_37 = PRIM_CDR(v__3519497_37);
-Obj v__3520974_37 = PRIM_CDR(v__3520973_37);
-Obj v__3520975_37 = PRIM_CDR(v__3520974_37);
-Obj v__3520976_37 = PRIM_EQ(Nil, v__3520975_37);
-if (True == v__3520976_37) {
-R[1] = v__3519945_37;
-saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519496_37, v__3519946_37);
+Obj v__3520046_37 = makeNative(co->gc, 4, clofun63, 0, 2, v__3519606_37, v__3519605_37);
+Obj v__3521086_37 = PRIM_ISCONS(v__3519606_37);
+if (True == v__3521086_37) {
+Obj v__3521087_37 = PRIM_CAR(v__3519606_37);
+Obj v__3521088_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521087_37);
+if (True == v__3521088_37) {
+Obj v__3521089_37 = PRIM_CDR(v__3519606_37);
+Obj v__3521090_37 = PRIM_ISCONS(v__3521089_37);
+if (True == v__3521090_37) {
+Obj v__3521091_37 = PRIM_CDR(v__3519606_37);
+Obj v__3521092_37 = PRIM_CAR(v__3521091_37);
+Obj v__3520057_37 = v__3521092_37;
+Obj v__3521093_37 = PRIM_CDR(v__3519606_37);
+Obj v__3521094_37 = PRIM_CDR(v__3521093_37);
+Obj v__3521095_37 = PRIM_ISCONS(v__3521094_37);
+if (True == v__3521095_37) {
+Obj v__3521096_37 = PRIM_CDR(v__3519606_37);
+Obj v__3521097_37 = PRIM_CDR(v__3521096_37);
+Obj v__3521098_37 = PRIM_CAR(v__3521097_37);
+Obj v__3520058_37 = v__3521098_37;
+Obj v__3521099_37 = PRIM_CDR(v__3519606_37);
+Obj v__3521100_37 = PRIM_CDR(v__3521099_37);
+Obj v__3521101_37 = PRIM_CDR(v__3521100_37);
+Obj v__3521102_37 = PRIM_EQ(Nil, v__3521101_37);
+if (True == v__3521102_37) {
+R[1] = v__3520057_37;
+saveCont(co, clofun64, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519605_37, v__3520058_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520046_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520046_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520046_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520046_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3520046_37);
 return;
 }
 }
@@ -5421,514 +5424,514 @@ return;
 }
 }
 
-static void clofun62(struct Cora* co, int label, Obj *R) {
+static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519935_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520935_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520935_37) {
-Obj v__3520936_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520937_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520936_37);
-if (True == v__3520937_37) {
-Obj v__3520938_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520939_37 = PRIM_ISCONS(v__3520938_37);
-if (True == v__3520939_37) {
-Obj v__3520940_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520941_37 = PRIM_CAR(v__3520940_37);
-Obj v__3519941_37 = v__3520941_37;
-Obj v__3520942_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520943_37 = PRIM_CDR(v__3520942_37);
-Obj v__3520944_37 = PRIM_ISCONS(v__3520943_37);
-if (True == v__3520944_37) {
-Obj v__3520945_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520946_37 = PRIM_CDR(v__3520945_37);
-Obj v__3520947_37 = PRIM_CAR(v__3520946_37);
-Obj v__3519942_37 = v__3520947_37;
-Obj v__3520948_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520949_37 = PRIM_CDR(v__3520948_37);
-Obj v__3520950_37 = PRIM_CDR(v__3520949_37);
-Obj v__3520951_37 = PRIM_EQ(Nil, v__3520950_37);
-if (True == v__3520951_37) {
-R[1] = v__3519942_37;
-R[2] = v__3519941_37;
-saveCont(co, clofun62, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519942_37);
+Obj v__3520047_37 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521061_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521061_37) {
+Obj v__3521062_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521063_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521062_37);
+if (True == v__3521063_37) {
+Obj v__3521064_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521065_37 = PRIM_ISCONS(v__3521064_37);
+if (True == v__3521065_37) {
+Obj v__3521066_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521067_37 = PRIM_CAR(v__3521066_37);
+Obj v__3520053_37 = v__3521067_37;
+Obj v__3521068_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521069_37 = PRIM_CDR(v__3521068_37);
+Obj v__3521070_37 = PRIM_ISCONS(v__3521069_37);
+if (True == v__3521070_37) {
+Obj v__3521071_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521072_37 = PRIM_CDR(v__3521071_37);
+Obj v__3521073_37 = PRIM_CAR(v__3521072_37);
+Obj v__3520054_37 = v__3521073_37;
+Obj v__3521074_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521075_37 = PRIM_CDR(v__3521074_37);
+Obj v__3521076_37 = PRIM_CDR(v__3521075_37);
+Obj v__3521077_37 = PRIM_EQ(Nil, v__3521076_37);
+if (True == v__3521077_37) {
+R[1] = v__3520054_37;
+R[2] = v__3520053_37;
+saveCont(co, clofun63, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520054_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3520047_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520956_37= co->res;
-Obj v__3519944_37 = R[1];
-Obj v__3519941_37 = R[2];
-Obj v__3520957_37 = makeCons(co->gc, v__3520956_37, v__3519944_37);
-Obj v__3520958_37 = makeCons(co->gc, v__3519941_37, v__3520957_37);
-Obj v__3520959_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3520958_37);
-coraReturn(co, v__3520959_37);
+Obj v__3521082_37= co->res;
+Obj v__3520056_37 = R[1];
+Obj v__3520053_37 = R[2];
+Obj v__3521083_37 = makeCons(co->gc, v__3521082_37, v__3520056_37);
+Obj v__3521084_37 = makeCons(co->gc, v__3520053_37, v__3521083_37);
+Obj v__3521085_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3521084_37);
+coraReturn(co, v__3521085_37);
 return;
 }
 case 2:
 {
-Obj v__3520955_37= co->res;
-Obj v__3519943_37 = R[1];
-Obj v__3519942_37 = R[2];
-Obj v__3519941_37 = R[3];
-Obj v__3519944_37 = v__3520955_37;
-R[1] = v__3519944_37;
-R[2] = v__3519941_37;
-saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519943_37, v__3519942_37);
+Obj v__3521081_37= co->res;
+Obj v__3520055_37 = R[1];
+Obj v__3520054_37 = R[2];
+Obj v__3520053_37 = R[3];
+Obj v__3520056_37 = v__3521081_37;
+R[1] = v__3520056_37;
+R[2] = v__3520053_37;
+saveCont(co, clofun63, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3520055_37, v__3520054_37);
 return;
 }
 case 3:
 {
-Obj v__3520954_37= co->res;
-Obj v__3519943_37 = R[1];
-Obj v__3519942_37 = R[2];
-Obj v__3519941_37 = R[3];
-R[1] = v__3519943_37;
-R[2] = v__3519942_37;
-R[3] = v__3519941_37;
-saveCont(co, clofun62, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520954_37, v__3519943_37);
+Obj v__3521080_37= co->res;
+Obj v__3520055_37 = R[1];
+Obj v__3520054_37 = R[2];
+Obj v__3520053_37 = R[3];
+R[1] = v__3520055_37;
+R[2] = v__3520054_37;
+R[3] = v__3520053_37;
+saveCont(co, clofun63, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521080_37, v__3520055_37);
 return;
 }
 case 4:
 {
-Obj v__3520953_37= co->res;
-Obj v__3519942_37 = R[1];
-Obj v__3519941_37 = R[2];
-Obj v__3519943_37 = v__3520953_37;
-R[1] = v__3519943_37;
-R[2] = v__3519942_37;
-R[3] = v__3519941_37;
-saveCont(co, clofun62, 3, R);
+Obj v__3521079_37= co->res;
+Obj v__3520054_37 = R[1];
+Obj v__3520053_37 = R[2];
+Obj v__3520055_37 = v__3521079_37;
+R[1] = v__3520055_37;
+R[2] = v__3520054_37;
+R[3] = v__3520053_37;
+saveCont(co, clofun63, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3520952_37= co->res;
-Obj v__3519942_37 = R[1];
-Obj v__3519941_37 = R[2];
-R[1] = v__3519942_37;
-R[2] = v__3519941_37;
-saveCont(co, clofun62, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520952_37, v__3519941_37);
+Obj v__3521078_37= co->res;
+Obj v__3520054_37 = R[1];
+Obj v__3520053_37 = R[2];
+R[1] = v__3520054_37;
+R[2] = v__3520053_37;
+saveCont(co, clofun63, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3521078_37, v__3520053_37);
 return;
 }
 }
 }
 
-static void clofun61(struct Cora* co, int label, Obj *R) {
+static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519936_37 = makeNative(co->gc, 3, clofun60, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520912_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520912_37) {
-Obj v__3520913_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520914_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520913_37);
-if (True == v__3520914_37) {
-Obj v__3520915_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520916_37 = PRIM_ISCONS(v__3520915_37);
-if (True == v__3520916_37) {
-Obj v__3520917_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520918_37 = PRIM_CAR(v__3520917_37);
-Obj v__3519939_37 = v__3520918_37;
-Obj v__3520919_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520920_37 = PRIM_CDR(v__3520919_37);
-Obj v__3520921_37 = PRIM_ISCONS(v__3520920_37);
-if (True == v__3520921_37) {
-Obj v__3520922_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520923_37 = PRIM_CDR(v__3520922_37);
-Obj v__3520924_37 = PRIM_CAR(v__3520923_37);
-Obj v__3519940_37 = v__3520924_37;
-Obj v__3520925_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520926_37 = PRIM_CDR(v__3520925_37);
-Obj v__3520927_37 = PRIM_CDR(v__3520926_37);
-Obj v__3520928_37 = PRIM_EQ(Nil, v__3520927_37);
-if (True == v__3520928_37) {
-R[1] = v__3519939_37;
-R[2] = v__3519940_37;
-saveCont(co, clofun61, 3, R);
+Obj v__3520048_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521038_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521038_37) {
+Obj v__3521039_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521040_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521039_37);
+if (True == v__3521040_37) {
+Obj v__3521041_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521042_37 = PRIM_ISCONS(v__3521041_37);
+if (True == v__3521042_37) {
+Obj v__3521043_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521044_37 = PRIM_CAR(v__3521043_37);
+Obj v__3520051_37 = v__3521044_37;
+Obj v__3521045_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521046_37 = PRIM_CDR(v__3521045_37);
+Obj v__3521047_37 = PRIM_ISCONS(v__3521046_37);
+if (True == v__3521047_37) {
+Obj v__3521048_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
+Obj v__3521050_37 = PRIM_CAR(v__3521049_37);
+Obj v__3520052_37 = v__3521050_37;
+Obj v__3521051_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521052_37 = PRIM_CDR(v__3521051_37);
+Obj v__3521053_37 = PRIM_CDR(v__3521052_37);
+Obj v__3521054_37 = PRIM_EQ(Nil, v__3521053_37);
+if (True == v__3521054_37) {
+R[1] = v__3520051_37;
+R[2] = v__3520052_37;
+saveCont(co, clofun62, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519936_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519936_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519936_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519936_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519936_37);
+coraCall0(co, v__3520048_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520931_37= co->res;
-Obj v__3520930_37 = R[1];
-Obj v__3520932_37 = makeCons(co->gc, v__3520931_37, Nil);
-Obj v__3520933_37 = makeCons(co->gc, v__3520930_37, v__3520932_37);
-Obj v__3520934_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3520933_37);
-coraReturn(co, v__3520934_37);
+Obj v__3521057_37= co->res;
+Obj v__3521056_37 = R[1];
+Obj v__3521058_37 = makeCons(co->gc, v__3521057_37, Nil);
+Obj v__3521059_37 = makeCons(co->gc, v__3521056_37, v__3521058_37);
+Obj v__3521060_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521059_37);
+coraReturn(co, v__3521060_37);
 return;
 }
 case 2:
 {
-Obj v__3520930_37= co->res;
-Obj v__3519940_37 = R[1];
-R[1] = v__3520930_37;
-saveCont(co, clofun61, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3519940_37);
+Obj v__3521056_37= co->res;
+Obj v__3520052_37 = R[1];
+R[1] = v__3521056_37;
+saveCont(co, clofun62, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3520052_37);
 return;
 }
 case 3:
 {
-Obj v__3520929_37= co->res;
-Obj v__3519939_37 = R[1];
-Obj v__3519940_37 = R[2];
-R[1] = v__3519940_37;
-saveCont(co, clofun61, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520929_37, v__3519939_37);
+Obj v__3521055_37= co->res;
+Obj v__3520051_37 = R[1];
+Obj v__3520052_37 = R[2];
+R[1] = v__3520052_37;
+saveCont(co, clofun62, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521055_37, v__3520051_37);
 return;
 }
 }
 }
 
-static void clofun60(struct Cora* co, int label, Obj *R) {
+static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520907_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520907_37) {
-Obj v__3520908_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519937_37 = v__3520908_37;
-Obj v__3520909_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519938_37 = v__3520909_37;
-R[1] = v__3519937_37;
-R[2] = v__3519938_37;
-saveCont(co, clofun60, 1, R);
+Obj v__3521033_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521033_37) {
+Obj v__3521034_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520049_37 = v__3521034_37;
+Obj v__3521035_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520050_37 = v__3521035_37;
+R[1] = v__3520049_37;
+R[2] = v__3520050_37;
+saveCont(co, clofun61, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3520910_37= co->res;
-Obj v__3519937_37 = R[1];
-Obj v__3519938_37 = R[2];
-Obj v__3520911_37 = makeCons(co->gc, v__3519937_37, v__3519938_37);
+Obj v__3521036_37= co->res;
+Obj v__3520049_37 = R[1];
+Obj v__3520050_37 = R[2];
+Obj v__3521037_37 = makeCons(co->gc, v__3520049_37, v__3520050_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520910_37, v__3520911_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521036_37, v__3521037_37);
 return;
 }
 }
 }
 
-static void clofun59(struct Cora* co, int label, Obj *R) {
+static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519485_37 = R[1];
-Obj v__3519486_37 = R[2];
-Obj v__3519487_37 = R[3];
-Obj v__3520882_37 = PRIM_EQ(Nil, v__3519485_37);
-if (True == v__3520882_37) {
-R[1] = v__3519487_37;
-saveCont(co, clofun59, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 67)), v__3519486_37);
+Obj v__3519594_37 = R[1];
+Obj v__3519595_37 = R[2];
+Obj v__3519596_37 = R[3];
+Obj v__3521008_37 = PRIM_EQ(Nil, v__3519594_37);
+if (True == v__3521008_37) {
+R[1] = v__3519596_37;
+saveCont(co, clofun60, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519595_37);
 return;
 } else {
-Obj v__3520900_37 = PRIM_ISCONS(v__3519485_37);
-if (True == v__3520900_37) {
-Obj v__3520901_37 = PRIM_CAR(v__3519485_37);
-Obj v__3519932_37 = v__3520901_37;
-Obj v__3520902_37 = PRIM_CDR(v__3519485_37);
-Obj v__3519933_37 = v__3520902_37;
+Obj v__3521026_37 = PRIM_ISCONS(v__3519594_37);
+if (True == v__3521026_37) {
+Obj v__3521027_37 = PRIM_CAR(v__3519594_37);
+Obj v__3520044_37 = v__3521027_37;
+Obj v__3521028_37 = PRIM_CDR(v__3519594_37);
+Obj v__3520045_37 = v__3521028_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519932_37, makeNative(co->gc, 2, clofun58, 1, 3, v__3519933_37, v__3519486_37, v__3519487_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520044_37, makeNative(co->gc, 2, clofun59, 1, 3, v__3520045_37, v__3519595_37, v__3519596_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520898_37= co->res;
-Obj v__3519930_37 = R[1];
-Obj v__3520899_37 = PRIM_EQ(v__3520898_37, getBinding(co, packageID, 91).name);
-if (True == v__3520899_37) {
+Obj v__3521024_37= co->res;
+Obj v__3520042_37 = R[1];
+Obj v__3521025_37 = PRIM_EQ(v__3521024_37, getBinding(co, packageID, 87).name);
+if (True == v__3521025_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519930_37, True);
+coraCall1(co, v__3520042_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519930_37, False);
+coraCall1(co, v__3520042_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520897_37= co->res;
-Obj v__3519927_37 = R[1];
-Obj v__3519930_37 = R[2];
-if (True == v__3520897_37) {
-R[1] = v__3519930_37;
-saveCont(co, clofun59, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519927_37);
+Obj v__3521023_37= co->res;
+Obj v__3520039_37 = R[1];
+Obj v__3520042_37 = R[2];
+if (True == v__3521023_37) {
+R[1] = v__3520042_37;
+saveCont(co, clofun60, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3520039_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519930_37, False);
+coraCall1(co, v__3520042_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3520883_37= co->res;
-Obj v__3519487_37 = R[1];
-Obj v__3519927_37 = v__3520883_37;
-Obj v__3519930_37 = makeNative(co->gc, 2, clofun57, 1, 2, v__3519927_37, v__3519487_37);
-Obj v__3520896_37 = PRIM_CAR(v__3519927_37);
-R[1] = v__3519927_37;
-R[2] = v__3519930_37;
-saveCont(co, clofun59, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520896_37);
+Obj v__3521009_37= co->res;
+Obj v__3519596_37 = R[1];
+Obj v__3520039_37 = v__3521009_37;
+Obj v__3520042_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3520039_37, v__3519596_37);
+Obj v__3521022_37 = PRIM_CAR(v__3520039_37);
+R[1] = v__3520039_37;
+R[2] = v__3520042_37;
+saveCont(co, clofun60, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3521022_37);
 return;
 }
 }
 }
 
-static void clofun58(struct Cora* co, int label, Obj *R) {
+static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519495_37 = R[1];
-Obj v__3520903_37 = makeCons(co->gc, v__3519495_37, closureRef(R[0], 1));
+Obj v__3519604_37 = R[1];
+Obj v__3521029_37 = makeCons(co->gc, v__3519604_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), v__3520903_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v__3521029_37, closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun57(struct Cora* co, int label, Obj *R) {
+static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519929_37 = R[1];
-if (True == v__3519929_37) {
+Obj v__3520041_37 = R[1];
+if (True == v__3520041_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3520884_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 70)));
-if (True == v__3520884_37) {
-Obj v__3520885_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520886_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3520885_37);
-coraReturn(co, v__3520886_37);
+Obj v__3521010_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
+if (True == v__3521010_37) {
+Obj v__3521011_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521012_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3521011_37);
+coraReturn(co, v__3521012_37);
 return;
 } else {
-Obj v__3520887_37 = primGenSym(co);
-Obj v__3519931_37 = v__3520887_37;
-Obj v__3520888_37 = makeCons(co->gc, v__3519931_37, Nil);
-R[1] = v__3520888_37;
-saveCont(co, clofun57, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3519931_37);
+Obj v__3521013_37 = primGenSym(co);
+Obj v__3520043_37 = v__3521013_37;
+Obj v__3521014_37 = makeCons(co->gc, v__3520043_37, Nil);
+R[1] = v__3521014_37;
+saveCont(co, clofun58, 1, R);
+coraCall1(co, closureRef(R[0], 1), v__3520043_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520889_37= co->res;
-Obj v__3520888_37 = R[1];
-Obj v__3520890_37 = makeCons(co->gc, v__3520889_37, Nil);
-Obj v__3520891_37 = makeCons(co->gc, v__3520888_37, v__3520890_37);
-Obj v__3520892_37 = makeCons(co->gc, getBinding(co, packageID, 75).name, v__3520891_37);
-Obj v__3520893_37 = makeCons(co->gc, v__3520892_37, Nil);
-Obj v__3520894_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520893_37);
-Obj v__3520895_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3520894_37);
-coraReturn(co, v__3520895_37);
+Obj v__3521015_37= co->res;
+Obj v__3521014_37 = R[1];
+Obj v__3521016_37 = makeCons(co->gc, v__3521015_37, Nil);
+Obj v__3521017_37 = makeCons(co->gc, v__3521014_37, v__3521016_37);
+Obj v__3521018_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3521017_37);
+Obj v__3521019_37 = makeCons(co->gc, v__3521018_37, Nil);
+Obj v__3521020_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521019_37);
+Obj v__3521021_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521020_37);
+coraReturn(co, v__3521021_37);
 return;
 }
 }
 }
 
-static void clofun56(struct Cora* co, int label, Obj *R) {
+static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519423_37 = R[1];
-Obj v__3519424_37 = R[2];
-Obj v__3519909_37 = makeNative(co->gc, 2, clofun55, 1, 2, v__3519423_37, v__3519424_37);
-Obj v__3520879_37 = primIsSymbol(v__3519423_37);
-if (True == v__3520879_37) {
+Obj v__3519532_37 = R[1];
+Obj v__3519533_37 = R[2];
+Obj v__3520021_37 = makeNative(co->gc, 2, clofun56, 1, 2, v__3519532_37, v__3519533_37);
+Obj v__3521005_37 = primIsSymbol(v__3519532_37);
+if (True == v__3521005_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519909_37, True);
+coraCall1(co, v__3520021_37, True);
 return;
 } else {
-R[1] = v__3519909_37;
-saveCont(co, clofun56, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519423_37);
+R[1] = v__3520021_37;
+saveCont(co, clofun57, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519532_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520880_37= co->res;
-Obj v__3519909_37 = R[1];
-if (True == v__3520880_37) {
+Obj v__3521006_37= co->res;
+Obj v__3520021_37 = R[1];
+if (True == v__3521006_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519909_37, True);
+coraCall1(co, v__3520021_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519909_37, False);
+coraCall1(co, v__3520021_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun55(struct Cora* co, int label, Obj *R) {
+static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519908_37 = R[1];
-if (True == v__3519908_37) {
+Obj v__3520020_37 = R[1];
+if (True == v__3520020_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), closureRef(R[0], 0));
+saveCont(co, clofun56, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), closureRef(R[0], 0));
 return;
 }
 }
 case 1:
 {
-Obj v__3520745_37= co->res;
-if (True == v__3520745_37) {
+Obj v__3520871_37= co->res;
+if (True == v__3520871_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3519910_37 = makeNative(co->gc, 1, clofun53, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520847_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520847_37) {
-Obj v__3520848_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520849_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520848_37);
-if (True == v__3520849_37) {
-Obj v__3520850_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520851_37 = PRIM_ISCONS(v__3520850_37);
-if (True == v__3520851_37) {
-Obj v__3520852_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520853_37 = PRIM_CAR(v__3520852_37);
-Obj v__3519924_37 = v__3520853_37;
-Obj v__3520854_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520855_37 = PRIM_CDR(v__3520854_37);
-Obj v__3520856_37 = PRIM_ISCONS(v__3520855_37);
-if (True == v__3520856_37) {
-Obj v__3520857_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520858_37 = PRIM_CDR(v__3520857_37);
-Obj v__3520859_37 = PRIM_CAR(v__3520858_37);
-Obj v__3519925_37 = v__3520859_37;
-Obj v__3520860_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520861_37 = PRIM_CDR(v__3520860_37);
-Obj v__3520862_37 = PRIM_CDR(v__3520861_37);
-Obj v__3520863_37 = PRIM_ISCONS(v__3520862_37);
-if (True == v__3520863_37) {
-Obj v__3520864_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520865_37 = PRIM_CDR(v__3520864_37);
-Obj v__3520866_37 = PRIM_CDR(v__3520865_37);
-Obj v__3520867_37 = PRIM_CAR(v__3520866_37);
-Obj v__3519926_37 = v__3520867_37;
-Obj v__3520868_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520869_37 = PRIM_CDR(v__3520868_37);
-Obj v__3520870_37 = PRIM_CDR(v__3520869_37);
-Obj v__3520871_37 = PRIM_CDR(v__3520870_37);
-Obj v__3520872_37 = PRIM_EQ(Nil, v__3520871_37);
-if (True == v__3520872_37) {
+Obj v__3520022_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520973_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520973_37) {
+Obj v__3520974_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520975_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520974_37);
+if (True == v__3520975_37) {
+Obj v__3520976_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520977_37 = PRIM_ISCONS(v__3520976_37);
+if (True == v__3520977_37) {
+Obj v__3520978_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520979_37 = PRIM_CAR(v__3520978_37);
+Obj v__3520036_37 = v__3520979_37;
+Obj v__3520980_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520981_37 = PRIM_CDR(v__3520980_37);
+Obj v__3520982_37 = PRIM_ISCONS(v__3520981_37);
+if (True == v__3520982_37) {
+Obj v__3520983_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520984_37 = PRIM_CDR(v__3520983_37);
+Obj v__3520985_37 = PRIM_CAR(v__3520984_37);
+Obj v__3520037_37 = v__3520985_37;
+Obj v__3520986_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520987_37 = PRIM_CDR(v__3520986_37);
+Obj v__3520988_37 = PRIM_CDR(v__3520987_37);
+Obj v__3520989_37 = PRIM_ISCONS(v__3520988_37);
+if (True == v__3520989_37) {
+Obj v__3520990_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520991_37 = PRIM_CDR(v__3520990_37);
+Obj v__3520992_37 = PRIM_CDR(v__3520991_37);
+Obj v__3520993_37 = PRIM_CAR(v__3520992_37);
+Obj v__3520038_37 = v__3520993_37;
+Obj v__3520994_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520995_37 = PRIM_CDR(v__3520994_37);
+Obj v__3520996_37 = PRIM_CDR(v__3520995_37);
+Obj v__3520997_37 = PRIM_CDR(v__3520996_37);
+Obj v__3520998_37 = PRIM_EQ(Nil, v__3520997_37);
+if (True == v__3520998_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519924_37, makeNative(co->gc, 3, clofun54, 1, 3, v__3519925_37, v__3519926_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520036_37, makeNative(co->gc, 3, clofun55, 1, 3, v__3520037_37, v__3520038_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519910_37);
+coraCall0(co, v__3520022_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519910_37);
+coraCall0(co, v__3520022_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519910_37);
+coraCall0(co, v__3520022_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519910_37);
+coraCall0(co, v__3520022_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519910_37);
+coraCall0(co, v__3520022_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519910_37);
+coraCall0(co, v__3520022_37);
 return;
 }
 }
@@ -5936,535 +5939,535 @@ return;
 }
 }
 
-static void clofun54(struct Cora* co, int label, Obj *R) {
+static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519484_37 = R[1];
-R[1] = v__3519484_37;
-saveCont(co, clofun54, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 2));
+Obj v__3519593_37 = R[1];
+R[1] = v__3519593_37;
+saveCont(co, clofun55, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3520874_37= co->res;
-Obj v__3520873_37 = R[1];
-Obj v__3519484_37 = R[2];
-Obj v__3520875_37 = makeCons(co->gc, v__3520874_37, Nil);
-Obj v__3520876_37 = makeCons(co->gc, v__3520873_37, v__3520875_37);
-Obj v__3520877_37 = makeCons(co->gc, v__3519484_37, v__3520876_37);
-Obj v__3520878_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520877_37);
-coraReturn(co, v__3520878_37);
+Obj v__3521000_37= co->res;
+Obj v__3520999_37 = R[1];
+Obj v__3519593_37 = R[2];
+Obj v__3521001_37 = makeCons(co->gc, v__3521000_37, Nil);
+Obj v__3521002_37 = makeCons(co->gc, v__3520999_37, v__3521001_37);
+Obj v__3521003_37 = makeCons(co->gc, v__3519593_37, v__3521002_37);
+Obj v__3521004_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3521003_37);
+coraReturn(co, v__3521004_37);
 return;
 }
 case 2:
 {
-Obj v__3520873_37= co->res;
-Obj v__3519484_37 = R[1];
-R[1] = v__3520873_37;
-R[2] = v__3519484_37;
-saveCont(co, clofun54, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520999_37= co->res;
+Obj v__3519593_37 = R[1];
+R[1] = v__3520999_37;
+R[2] = v__3519593_37;
+saveCont(co, clofun55, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 }
 }
 
-static void clofun53(struct Cora* co, int label, Obj *R) {
+static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519911_37 = makeNative(co->gc, 1, clofun51, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520825_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520825_37) {
-Obj v__3520826_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520827_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520826_37);
-if (True == v__3520827_37) {
-Obj v__3520828_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520829_37 = PRIM_ISCONS(v__3520828_37);
-if (True == v__3520829_37) {
-Obj v__3520830_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520831_37 = PRIM_CAR(v__3520830_37);
-Obj v__3519922_37 = v__3520831_37;
-Obj v__3520832_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520833_37 = PRIM_CDR(v__3520832_37);
-Obj v__3520834_37 = PRIM_ISCONS(v__3520833_37);
-if (True == v__3520834_37) {
-Obj v__3520835_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520836_37 = PRIM_CDR(v__3520835_37);
-Obj v__3520837_37 = PRIM_CAR(v__3520836_37);
-Obj v__3519923_37 = v__3520837_37;
-Obj v__3520838_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520839_37 = PRIM_CDR(v__3520838_37);
-Obj v__3520840_37 = PRIM_CDR(v__3520839_37);
-Obj v__3520841_37 = PRIM_EQ(Nil, v__3520840_37);
-if (True == v__3520841_37) {
+Obj v__3520023_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520951_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520951_37) {
+Obj v__3520952_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520953_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520952_37);
+if (True == v__3520953_37) {
+Obj v__3520954_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520955_37 = PRIM_ISCONS(v__3520954_37);
+if (True == v__3520955_37) {
+Obj v__3520956_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520957_37 = PRIM_CAR(v__3520956_37);
+Obj v__3520034_37 = v__3520957_37;
+Obj v__3520958_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520959_37 = PRIM_CDR(v__3520958_37);
+Obj v__3520960_37 = PRIM_ISCONS(v__3520959_37);
+if (True == v__3520960_37) {
+Obj v__3520961_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520962_37 = PRIM_CDR(v__3520961_37);
+Obj v__3520963_37 = PRIM_CAR(v__3520962_37);
+Obj v__3520035_37 = v__3520963_37;
+Obj v__3520964_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520965_37 = PRIM_CDR(v__3520964_37);
+Obj v__3520966_37 = PRIM_CDR(v__3520965_37);
+Obj v__3520967_37 = PRIM_EQ(Nil, v__3520966_37);
+if (True == v__3520967_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519922_37, makeNative(co->gc, 2, clofun52, 1, 2, v__3519923_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520034_37, makeNative(co->gc, 2, clofun53, 1, 2, v__3520035_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519911_37);
+coraCall0(co, v__3520023_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519911_37);
+coraCall0(co, v__3520023_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519911_37);
+coraCall0(co, v__3520023_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519911_37);
+coraCall0(co, v__3520023_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519911_37);
+coraCall0(co, v__3520023_37);
 return;
 }
 }
 }
 }
 
-static void clofun52(struct Cora* co, int label, Obj *R) {
+static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519479_37 = R[1];
-Obj v__3520842_37 = primIsSymbol(v__3519479_37);
-if (True == v__3520842_37) {
+Obj v__3519588_37 = R[1];
+Obj v__3520968_37 = primIsSymbol(v__3519588_37);
+if (True == v__3520968_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = v__3519479_37;
-saveCont(co, clofun52, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 0), closureRef(R[0], 1));
+R[1] = v__3519588_37;
+saveCont(co, clofun53, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 }
 case 1:
 {
-Obj v__3520843_37= co->res;
-Obj v__3519479_37 = R[1];
-Obj v__3520844_37 = makeCons(co->gc, v__3520843_37, Nil);
-Obj v__3520845_37 = makeCons(co->gc, v__3519479_37, v__3520844_37);
-Obj v__3520846_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520845_37);
-coraReturn(co, v__3520846_37);
+Obj v__3520969_37= co->res;
+Obj v__3519588_37 = R[1];
+Obj v__3520970_37 = makeCons(co->gc, v__3520969_37, Nil);
+Obj v__3520971_37 = makeCons(co->gc, v__3519588_37, v__3520970_37);
+Obj v__3520972_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520971_37);
+coraReturn(co, v__3520972_37);
 return;
 }
 }
 }
 
-static void clofun51(struct Cora* co, int label, Obj *R) {
+static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519912_37 = makeNative(co->gc, 3, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520794_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520794_37) {
-Obj v__3520795_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520796_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520795_37);
-if (True == v__3520796_37) {
-Obj v__3520797_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520798_37 = PRIM_ISCONS(v__3520797_37);
-if (True == v__3520798_37) {
-Obj v__3520799_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520800_37 = PRIM_CAR(v__3520799_37);
-Obj v__3519919_37 = v__3520800_37;
-Obj v__3520801_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520802_37 = PRIM_CDR(v__3520801_37);
-Obj v__3520803_37 = PRIM_ISCONS(v__3520802_37);
-if (True == v__3520803_37) {
-Obj v__3520804_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520805_37 = PRIM_CDR(v__3520804_37);
-Obj v__3520806_37 = PRIM_CAR(v__3520805_37);
-Obj v__3519920_37 = v__3520806_37;
-Obj v__3520807_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520808_37 = PRIM_CDR(v__3520807_37);
-Obj v__3520809_37 = PRIM_CDR(v__3520808_37);
-Obj v__3520810_37 = PRIM_ISCONS(v__3520809_37);
-if (True == v__3520810_37) {
-Obj v__3520811_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520812_37 = PRIM_CDR(v__3520811_37);
-Obj v__3520813_37 = PRIM_CDR(v__3520812_37);
-Obj v__3520814_37 = PRIM_CAR(v__3520813_37);
-Obj v__3519921_37 = v__3520814_37;
-Obj v__3520815_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520816_37 = PRIM_CDR(v__3520815_37);
-Obj v__3520817_37 = PRIM_CDR(v__3520816_37);
-Obj v__3520818_37 = PRIM_CDR(v__3520817_37);
-Obj v__3520819_37 = PRIM_EQ(Nil, v__3520818_37);
-if (True == v__3520819_37) {
+Obj v__3520024_37 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520920_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520920_37) {
+Obj v__3520921_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520922_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520921_37);
+if (True == v__3520922_37) {
+Obj v__3520923_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520924_37 = PRIM_ISCONS(v__3520923_37);
+if (True == v__3520924_37) {
+Obj v__3520925_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520926_37 = PRIM_CAR(v__3520925_37);
+Obj v__3520031_37 = v__3520926_37;
+Obj v__3520927_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520928_37 = PRIM_CDR(v__3520927_37);
+Obj v__3520929_37 = PRIM_ISCONS(v__3520928_37);
+if (True == v__3520929_37) {
+Obj v__3520930_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520931_37 = PRIM_CDR(v__3520930_37);
+Obj v__3520932_37 = PRIM_CAR(v__3520931_37);
+Obj v__3520032_37 = v__3520932_37;
+Obj v__3520933_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520934_37 = PRIM_CDR(v__3520933_37);
+Obj v__3520935_37 = PRIM_CDR(v__3520934_37);
+Obj v__3520936_37 = PRIM_ISCONS(v__3520935_37);
+if (True == v__3520936_37) {
+Obj v__3520937_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520938_37 = PRIM_CDR(v__3520937_37);
+Obj v__3520939_37 = PRIM_CDR(v__3520938_37);
+Obj v__3520940_37 = PRIM_CAR(v__3520939_37);
+Obj v__3520033_37 = v__3520940_37;
+Obj v__3520941_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520942_37 = PRIM_CDR(v__3520941_37);
+Obj v__3520943_37 = PRIM_CDR(v__3520942_37);
+Obj v__3520944_37 = PRIM_CDR(v__3520943_37);
+Obj v__3520945_37 = PRIM_EQ(Nil, v__3520944_37);
+if (True == v__3520945_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519920_37, makeNative(co->gc, 2, clofun50, 1, 3, v__3519919_37, v__3519921_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520032_37, makeNative(co->gc, 2, clofun51, 1, 3, v__3520031_37, v__3520033_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519912_37);
+coraCall0(co, v__3520024_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519912_37);
+coraCall0(co, v__3520024_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519912_37);
+coraCall0(co, v__3520024_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519912_37);
+coraCall0(co, v__3520024_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519912_37);
+coraCall0(co, v__3520024_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519912_37);
+coraCall0(co, v__3520024_37);
 return;
 }
 }
 }
 }
 
-static void clofun50(struct Cora* co, int label, Obj *R) {
+static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519475_37 = R[1];
-R[1] = v__3519475_37;
-saveCont(co, clofun50, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3519584_37 = R[1];
+R[1] = v__3519584_37;
+saveCont(co, clofun51, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3520820_37= co->res;
-Obj v__3519475_37 = R[1];
-Obj v__3520821_37 = makeCons(co->gc, v__3520820_37, Nil);
-Obj v__3520822_37 = makeCons(co->gc, v__3519475_37, v__3520821_37);
-Obj v__3520823_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520822_37);
-Obj v__3520824_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520823_37);
-coraReturn(co, v__3520824_37);
+Obj v__3520946_37= co->res;
+Obj v__3519584_37 = R[1];
+Obj v__3520947_37 = makeCons(co->gc, v__3520946_37, Nil);
+Obj v__3520948_37 = makeCons(co->gc, v__3519584_37, v__3520947_37);
+Obj v__3520949_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520948_37);
+Obj v__3520950_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520949_37);
+coraReturn(co, v__3520950_37);
 return;
 }
 }
 }
 
-static void clofun49(struct Cora* co, int label, Obj *R) {
+static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519913_37 = makeNative(co->gc, 1, clofun48, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520750_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520750_37) {
-Obj v__3520751_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520752_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3520751_37);
-if (True == v__3520752_37) {
-Obj v__3520753_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520754_37 = PRIM_ISCONS(v__3520753_37);
-if (True == v__3520754_37) {
-Obj v__3520755_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520756_37 = PRIM_CAR(v__3520755_37);
-Obj v__3520757_37 = PRIM_ISCONS(v__3520756_37);
-if (True == v__3520757_37) {
-Obj v__3520758_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520759_37 = PRIM_CAR(v__3520758_37);
-Obj v__3520760_37 = PRIM_CAR(v__3520759_37);
-Obj v__3520761_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520760_37);
-if (True == v__3520761_37) {
-Obj v__3520762_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520763_37 = PRIM_CAR(v__3520762_37);
-Obj v__3520764_37 = PRIM_CDR(v__3520763_37);
-Obj v__3520765_37 = PRIM_ISCONS(v__3520764_37);
-if (True == v__3520765_37) {
-Obj v__3520766_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520767_37 = PRIM_CAR(v__3520766_37);
-Obj v__3520768_37 = PRIM_CDR(v__3520767_37);
-Obj v__3520769_37 = PRIM_CAR(v__3520768_37);
-Obj v__3519916_37 = v__3520769_37;
-Obj v__3520770_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520771_37 = PRIM_CAR(v__3520770_37);
-Obj v__3520772_37 = PRIM_CDR(v__3520771_37);
-Obj v__3520773_37 = PRIM_CDR(v__3520772_37);
-Obj v__3520774_37 = PRIM_ISCONS(v__3520773_37);
-if (True == v__3520774_37) {
-Obj v__3520775_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520776_37 = PRIM_CAR(v__3520775_37);
-Obj v__3520777_37 = PRIM_CDR(v__3520776_37);
-Obj v__3520778_37 = PRIM_CDR(v__3520777_37);
-Obj v__3520779_37 = PRIM_CAR(v__3520778_37);
-Obj v__3519917_37 = v__3520779_37;
-Obj v__3520780_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520781_37 = PRIM_CAR(v__3520780_37);
-Obj v__3520782_37 = PRIM_CDR(v__3520781_37);
-Obj v__3520783_37 = PRIM_CDR(v__3520782_37);
-Obj v__3520784_37 = PRIM_CDR(v__3520783_37);
-Obj v__3520785_37 = PRIM_EQ(Nil, v__3520784_37);
-if (True == v__3520785_37) {
-Obj v__3520786_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520787_37 = PRIM_CDR(v__3520786_37);
-Obj v__3519918_37 = v__3520787_37;
-R[1] = v__3519916_37;
-R[2] = v__3519918_37;
-saveCont(co, clofun49, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 69)), v__3519917_37, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3520025_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520876_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520876_37) {
+Obj v__3520877_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520878_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520877_37);
+if (True == v__3520878_37) {
+Obj v__3520879_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520880_37 = PRIM_ISCONS(v__3520879_37);
+if (True == v__3520880_37) {
+Obj v__3520881_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520882_37 = PRIM_CAR(v__3520881_37);
+Obj v__3520883_37 = PRIM_ISCONS(v__3520882_37);
+if (True == v__3520883_37) {
+Obj v__3520884_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520885_37 = PRIM_CAR(v__3520884_37);
+Obj v__3520886_37 = PRIM_CAR(v__3520885_37);
+Obj v__3520887_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520886_37);
+if (True == v__3520887_37) {
+Obj v__3520888_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520889_37 = PRIM_CAR(v__3520888_37);
+Obj v__3520890_37 = PRIM_CDR(v__3520889_37);
+Obj v__3520891_37 = PRIM_ISCONS(v__3520890_37);
+if (True == v__3520891_37) {
+Obj v__3520892_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520893_37 = PRIM_CAR(v__3520892_37);
+Obj v__3520894_37 = PRIM_CDR(v__3520893_37);
+Obj v__3520895_37 = PRIM_CAR(v__3520894_37);
+Obj v__3520028_37 = v__3520895_37;
+Obj v__3520896_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520897_37 = PRIM_CAR(v__3520896_37);
+Obj v__3520898_37 = PRIM_CDR(v__3520897_37);
+Obj v__3520899_37 = PRIM_CDR(v__3520898_37);
+Obj v__3520900_37 = PRIM_ISCONS(v__3520899_37);
+if (True == v__3520900_37) {
+Obj v__3520901_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520902_37 = PRIM_CAR(v__3520901_37);
+Obj v__3520903_37 = PRIM_CDR(v__3520902_37);
+Obj v__3520904_37 = PRIM_CDR(v__3520903_37);
+Obj v__3520905_37 = PRIM_CAR(v__3520904_37);
+Obj v__3520029_37 = v__3520905_37;
+Obj v__3520906_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520907_37 = PRIM_CAR(v__3520906_37);
+Obj v__3520908_37 = PRIM_CDR(v__3520907_37);
+Obj v__3520909_37 = PRIM_CDR(v__3520908_37);
+Obj v__3520910_37 = PRIM_CDR(v__3520909_37);
+Obj v__3520911_37 = PRIM_EQ(Nil, v__3520910_37);
+if (True == v__3520911_37) {
+Obj v__3520912_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520913_37 = PRIM_CDR(v__3520912_37);
+Obj v__3520030_37 = v__3520913_37;
+R[1] = v__3520028_37;
+R[2] = v__3520030_37;
+saveCont(co, clofun50, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520029_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519913_37);
+coraCall0(co, v__3520025_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520788_37= co->res;
-Obj v__3519916_37 = R[1];
-Obj v__3519918_37 = R[2];
-Obj v__3520789_37 = makeCons(co->gc, v__3520788_37, Nil);
-Obj v__3520790_37 = makeCons(co->gc, v__3519916_37, v__3520789_37);
-Obj v__3520791_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520790_37);
-Obj v__3520792_37 = makeCons(co->gc, v__3520791_37, v__3519918_37);
-Obj v__3520793_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3520792_37);
+Obj v__3520914_37= co->res;
+Obj v__3520028_37 = R[1];
+Obj v__3520030_37 = R[2];
+Obj v__3520915_37 = makeCons(co->gc, v__3520914_37, Nil);
+Obj v__3520916_37 = makeCons(co->gc, v__3520028_37, v__3520915_37);
+Obj v__3520917_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520916_37);
+Obj v__3520918_37 = makeCons(co->gc, v__3520917_37, v__3520030_37);
+Obj v__3520919_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520918_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3520793_37);
+coraCall1(co, closureRef(R[0], 1), v__3520919_37);
 return;
 }
 }
 }
 
-static void clofun48(struct Cora* co, int label, Obj *R) {
+static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520746_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520746_37) {
-Obj v__3520747_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519914_37 = v__3520747_37;
-Obj v__3520748_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519915_37 = v__3520748_37;
-Obj v__3520749_37 = makeCons(co->gc, v__3519914_37, v__3519915_37);
+Obj v__3520872_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520872_37) {
+Obj v__3520873_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520026_37 = v__3520873_37;
+Obj v__3520874_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520027_37 = v__3520874_37;
+Obj v__3520875_37 = makeCons(co->gc, v__3520026_37, v__3520027_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 68)), v__3520749_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v__3520875_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 }
 
-static void clofun47(struct Cora* co, int label, Obj *R) {
+static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519422_37 = R[1];
-Obj v__3520742_37 = makeCons(co->gc, v__3519422_37, Nil);
-Obj v__3520743_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3520742_37);
-coraReturn(co, v__3520743_37);
+Obj v__3519531_37 = R[1];
+Obj v__3520868_37 = makeCons(co->gc, v__3519531_37, Nil);
+Obj v__3520869_37 = makeCons(co->gc, getBinding(co, packageID, 71).name, v__3520868_37);
+coraReturn(co, v__3520869_37);
 return;
 }
 }
 }
 
-static void clofun46(struct Cora* co, int label, Obj *R) {
+static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519388_37 = R[1];
-Obj v__3519389_37 = R[2];
-R[1] = v__3519389_37;
-R[2] = v__3519388_37;
-saveCont(co, clofun46, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519389_37);
+Obj v__3519497_37 = R[1];
+Obj v__3519498_37 = R[2];
+R[1] = v__3519498_37;
+R[2] = v__3519497_37;
+saveCont(co, clofun47, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519498_37);
 return;
 }
 case 1:
 {
-Obj v__3520671_37= co->res;
-Obj v__3519389_37 = R[1];
-Obj v__3519896_37 = v__3520671_37;
-Obj v__3520672_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3519896_37);
-if (True == v__3520672_37) {
-coraReturn(co, v__3519389_37);
+Obj v__3520797_37= co->res;
+Obj v__3519498_37 = R[1];
+Obj v__3520008_37 = v__3520797_37;
+Obj v__3520798_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3520008_37);
+if (True == v__3520798_37) {
+coraReturn(co, v__3519498_37);
 return;
 } else {
-Obj v__3520673_37 = makeCons(co->gc, v__3519896_37, Nil);
-Obj v__3520674_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520673_37);
-coraReturn(co, v__3520674_37);
+Obj v__3520799_37 = makeCons(co->gc, v__3520008_37, Nil);
+Obj v__3520800_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3520799_37);
+coraReturn(co, v__3520800_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520738_37= co->res;
-Obj v__3520736_37 = R[1];
-Obj v__3520739_37 = makeCons(co->gc, v__3520736_37, v__3520738_37);
-Obj v__3520740_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3520739_37);
-coraReturn(co, v__3520740_37);
+Obj v__3520864_37= co->res;
+Obj v__3520862_37 = R[1];
+Obj v__3520865_37 = makeCons(co->gc, v__3520862_37, v__3520864_37);
+Obj v__3520866_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520865_37);
+coraReturn(co, v__3520866_37);
 return;
 }
 case 3:
 {
-Obj v__3520737_37= co->res;
-Obj v__3519906_37 = R[1];
-Obj v__3520736_37 = R[2];
-R[1] = v__3520736_37;
-saveCont(co, clofun46, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520737_37, v__3519906_37);
+Obj v__3520863_37= co->res;
+Obj v__3520018_37 = R[1];
+Obj v__3520862_37 = R[2];
+R[1] = v__3520862_37;
+saveCont(co, clofun47, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520863_37, v__3520018_37);
 return;
 }
 case 4:
 {
-Obj v__3520733_37= co->res;
-Obj v__3519904_37 = R[1];
-Obj v__3519388_37 = R[2];
-Obj v__3519906_37 = R[3];
-Obj v__3520734_37 = makeCons(co->gc, v__3520733_37, Nil);
-Obj v__3520735_37 = makeCons(co->gc, v__3519904_37, v__3520734_37);
-Obj v__3520736_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520735_37);
-R[1] = v__3519906_37;
-R[2] = v__3520736_37;
-saveCont(co, clofun46, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), v__3519388_37);
+Obj v__3520859_37= co->res;
+Obj v__3520016_37 = R[1];
+Obj v__3519497_37 = R[2];
+Obj v__3520018_37 = R[3];
+Obj v__3520860_37 = makeCons(co->gc, v__3520859_37, Nil);
+Obj v__3520861_37 = makeCons(co->gc, v__3520016_37, v__3520860_37);
+Obj v__3520862_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520861_37);
+R[1] = v__3520018_37;
+R[2] = v__3520862_37;
+saveCont(co, clofun47, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v__3519497_37);
 return;
 }
 case 5:
 {
-Obj v__3520732_37= co->res;
-Obj v__3519905_37 = R[1];
-Obj v__3519904_37 = R[2];
-Obj v__3519388_37 = R[3];
-Obj v__3519906_37 = v__3520732_37;
-R[1] = v__3519904_37;
-R[2] = v__3519388_37;
-R[3] = v__3519906_37;
-saveCont(co, clofun46, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), v__3519906_37, v__3519905_37);
+Obj v__3520858_37= co->res;
+Obj v__3520017_37 = R[1];
+Obj v__3520016_37 = R[2];
+Obj v__3519497_37 = R[3];
+Obj v__3520018_37 = v__3520858_37;
+R[1] = v__3520016_37;
+R[2] = v__3519497_37;
+R[3] = v__3520018_37;
+saveCont(co, clofun47, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3520018_37, v__3520017_37);
 return;
 }
 case 6:
 {
-Obj v__3520669_37= co->res;
-Obj v__3519389_37 = R[1];
-Obj v__3519388_37 = R[2];
-if (True == v__3520669_37) {
-coraReturn(co, v__3519389_37);
-return;
-} else {
-Obj v__3520670_37 = primIsSymbol(v__3519389_37);
-if (True == v__3520670_37) {
-R[1] = v__3519389_37;
-saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519389_37, v__3519388_37);
+Obj v__3520795_37= co->res;
+Obj v__3519498_37 = R[1];
+Obj v__3519497_37 = R[2];
+if (True == v__3520795_37) {
+coraReturn(co, v__3519498_37);
 return;
 } else {
-Obj v__3519897_37 = makeNative(co->gc, 3, clofun45, 0, 2, v__3519389_37, v__3519388_37);
-Obj v__3520712_37 = PRIM_ISCONS(v__3519389_37);
-if (True == v__3520712_37) {
-Obj v__3520713_37 = PRIM_CAR(v__3519389_37);
-Obj v__3520714_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520713_37);
-if (True == v__3520714_37) {
-Obj v__3520715_37 = PRIM_CDR(v__3519389_37);
-Obj v__3520716_37 = PRIM_ISCONS(v__3520715_37);
-if (True == v__3520716_37) {
-Obj v__3520717_37 = PRIM_CDR(v__3519389_37);
-Obj v__3520718_37 = PRIM_CAR(v__3520717_37);
-Obj v__3519904_37 = v__3520718_37;
-Obj v__3520719_37 = PRIM_CDR(v__3519389_37);
-Obj v__3520720_37 = PRIM_CDR(v__3520719_37);
-Obj v__3520721_37 = PRIM_ISCONS(v__3520720_37);
-if (True == v__3520721_37) {
-Obj v__3520722_37 = PRIM_CDR(v__3519389_37);
-Obj v__3520723_37 = PRIM_CDR(v__3520722_37);
-Obj v__3520724_37 = PRIM_CAR(v__3520723_37);
-Obj v__3519905_37 = v__3520724_37;
-Obj v__3520725_37 = PRIM_CDR(v__3519389_37);
-Obj v__3520726_37 = PRIM_CDR(v__3520725_37);
-Obj v__3520727_37 = PRIM_CDR(v__3520726_37);
-Obj v__3520728_37 = PRIM_EQ(Nil, v__3520727_37);
-if (True == v__3520728_37) {
-Obj v__3520729_37 = makeCons(co->gc, v__3519905_37, Nil);
-Obj v__3520730_37 = makeCons(co->gc, v__3519904_37, v__3520729_37);
-Obj v__3520731_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520730_37);
-R[1] = v__3519905_37;
-R[2] = v__3519904_37;
-R[3] = v__3519388_37;
-saveCont(co, clofun46, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3520731_37);
+Obj v__3520796_37 = primIsSymbol(v__3519498_37);
+if (True == v__3520796_37) {
+R[1] = v__3519498_37;
+saveCont(co, clofun47, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3519498_37, v__3519497_37);
+return;
+} else {
+Obj v__3520009_37 = makeNative(co->gc, 3, clofun46, 0, 2, v__3519498_37, v__3519497_37);
+Obj v__3520838_37 = PRIM_ISCONS(v__3519498_37);
+if (True == v__3520838_37) {
+Obj v__3520839_37 = PRIM_CAR(v__3519498_37);
+Obj v__3520840_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520839_37);
+if (True == v__3520840_37) {
+Obj v__3520841_37 = PRIM_CDR(v__3519498_37);
+Obj v__3520842_37 = PRIM_ISCONS(v__3520841_37);
+if (True == v__3520842_37) {
+Obj v__3520843_37 = PRIM_CDR(v__3519498_37);
+Obj v__3520844_37 = PRIM_CAR(v__3520843_37);
+Obj v__3520016_37 = v__3520844_37;
+Obj v__3520845_37 = PRIM_CDR(v__3519498_37);
+Obj v__3520846_37 = PRIM_CDR(v__3520845_37);
+Obj v__3520847_37 = PRIM_ISCONS(v__3520846_37);
+if (True == v__3520847_37) {
+Obj v__3520848_37 = PRIM_CDR(v__3519498_37);
+Obj v__3520849_37 = PRIM_CDR(v__3520848_37);
+Obj v__3520850_37 = PRIM_CAR(v__3520849_37);
+Obj v__3520017_37 = v__3520850_37;
+Obj v__3520851_37 = PRIM_CDR(v__3519498_37);
+Obj v__3520852_37 = PRIM_CDR(v__3520851_37);
+Obj v__3520853_37 = PRIM_CDR(v__3520852_37);
+Obj v__3520854_37 = PRIM_EQ(Nil, v__3520853_37);
+if (True == v__3520854_37) {
+Obj v__3520855_37 = makeCons(co->gc, v__3520017_37, Nil);
+Obj v__3520856_37 = makeCons(co->gc, v__3520016_37, v__3520855_37);
+Obj v__3520857_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520856_37);
+R[1] = v__3520017_37;
+R[2] = v__3520016_37;
+R[3] = v__3519497_37;
+saveCont(co, clofun47, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520857_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520009_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520009_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520009_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520009_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519897_37);
+coraCall0(co, v__3520009_37);
 return;
 }
 }
@@ -6473,226 +6476,226 @@ return;
 }
 }
 
-static void clofun45(struct Cora* co, int label, Obj *R) {
+static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519898_37 = makeNative(co->gc, 3, clofun44, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520680_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520680_37) {
-Obj v__3520681_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520682_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520681_37);
-if (True == v__3520682_37) {
-Obj v__3520683_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520684_37 = PRIM_ISCONS(v__3520683_37);
-if (True == v__3520684_37) {
-Obj v__3520685_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520686_37 = PRIM_CAR(v__3520685_37);
-Obj v__3519901_37 = v__3520686_37;
-Obj v__3520687_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520688_37 = PRIM_CDR(v__3520687_37);
-Obj v__3520689_37 = PRIM_ISCONS(v__3520688_37);
-if (True == v__3520689_37) {
-Obj v__3520690_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520691_37 = PRIM_CDR(v__3520690_37);
-Obj v__3520692_37 = PRIM_CAR(v__3520691_37);
-Obj v__3519902_37 = v__3520692_37;
-Obj v__3520693_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520694_37 = PRIM_CDR(v__3520693_37);
-Obj v__3520695_37 = PRIM_CDR(v__3520694_37);
-Obj v__3520696_37 = PRIM_ISCONS(v__3520695_37);
-if (True == v__3520696_37) {
-Obj v__3520697_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520698_37 = PRIM_CDR(v__3520697_37);
-Obj v__3520699_37 = PRIM_CDR(v__3520698_37);
-Obj v__3520700_37 = PRIM_CAR(v__3520699_37);
-Obj v__3519903_37 = v__3520700_37;
-Obj v__3520701_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520702_37 = PRIM_CDR(v__3520701_37);
-Obj v__3520703_37 = PRIM_CDR(v__3520702_37);
-Obj v__3520704_37 = PRIM_CDR(v__3520703_37);
-Obj v__3520705_37 = PRIM_EQ(Nil, v__3520704_37);
-if (True == v__3520705_37) {
-R[1] = v__3519903_37;
-R[2] = v__3519901_37;
-saveCont(co, clofun45, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3519902_37);
+Obj v__3520010_37 = makeNative(co->gc, 3, clofun45, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520806_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520806_37) {
+Obj v__3520807_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520808_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520807_37);
+if (True == v__3520808_37) {
+Obj v__3520809_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520810_37 = PRIM_ISCONS(v__3520809_37);
+if (True == v__3520810_37) {
+Obj v__3520811_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520812_37 = PRIM_CAR(v__3520811_37);
+Obj v__3520013_37 = v__3520812_37;
+Obj v__3520813_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520814_37 = PRIM_CDR(v__3520813_37);
+Obj v__3520815_37 = PRIM_ISCONS(v__3520814_37);
+if (True == v__3520815_37) {
+Obj v__3520816_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520817_37 = PRIM_CDR(v__3520816_37);
+Obj v__3520818_37 = PRIM_CAR(v__3520817_37);
+Obj v__3520014_37 = v__3520818_37;
+Obj v__3520819_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520820_37 = PRIM_CDR(v__3520819_37);
+Obj v__3520821_37 = PRIM_CDR(v__3520820_37);
+Obj v__3520822_37 = PRIM_ISCONS(v__3520821_37);
+if (True == v__3520822_37) {
+Obj v__3520823_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520824_37 = PRIM_CDR(v__3520823_37);
+Obj v__3520825_37 = PRIM_CDR(v__3520824_37);
+Obj v__3520826_37 = PRIM_CAR(v__3520825_37);
+Obj v__3520015_37 = v__3520826_37;
+Obj v__3520827_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520828_37 = PRIM_CDR(v__3520827_37);
+Obj v__3520829_37 = PRIM_CDR(v__3520828_37);
+Obj v__3520830_37 = PRIM_CDR(v__3520829_37);
+Obj v__3520831_37 = PRIM_EQ(Nil, v__3520830_37);
+if (True == v__3520831_37) {
+R[1] = v__3520015_37;
+R[2] = v__3520013_37;
+saveCont(co, clofun46, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v__3520014_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519898_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519898_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519898_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519898_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519898_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519898_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520707_37= co->res;
-Obj v__3520706_37 = R[1];
-Obj v__3519901_37 = R[2];
-Obj v__3520708_37 = makeCons(co->gc, v__3520707_37, Nil);
-Obj v__3520709_37 = makeCons(co->gc, v__3520706_37, v__3520708_37);
-Obj v__3520710_37 = makeCons(co->gc, v__3519901_37, v__3520709_37);
-Obj v__3520711_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520710_37);
-coraReturn(co, v__3520711_37);
+Obj v__3520833_37= co->res;
+Obj v__3520832_37 = R[1];
+Obj v__3520013_37 = R[2];
+Obj v__3520834_37 = makeCons(co->gc, v__3520833_37, Nil);
+Obj v__3520835_37 = makeCons(co->gc, v__3520832_37, v__3520834_37);
+Obj v__3520836_37 = makeCons(co->gc, v__3520013_37, v__3520835_37);
+Obj v__3520837_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520836_37);
+coraReturn(co, v__3520837_37);
 return;
 }
 case 2:
 {
-Obj v__3520706_37= co->res;
-Obj v__3519903_37 = R[1];
-Obj v__3519901_37 = R[2];
-R[1] = v__3520706_37;
-R[2] = v__3519901_37;
-saveCont(co, clofun45, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1), v__3519903_37);
+Obj v__3520832_37= co->res;
+Obj v__3520015_37 = R[1];
+Obj v__3520013_37 = R[2];
+R[1] = v__3520832_37;
+R[2] = v__3520013_37;
+saveCont(co, clofun46, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v__3520015_37);
 return;
 }
 }
 }
 
-static void clofun44(struct Cora* co, int label, Obj *R) {
+static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520675_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520675_37) {
-Obj v__3520676_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519899_37 = v__3520676_37;
-Obj v__3520677_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519900_37 = v__3520677_37;
-R[1] = v__3519899_37;
-R[2] = v__3519900_37;
-saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 71)), closureRef(R[0], 1));
+Obj v__3520801_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520801_37) {
+Obj v__3520802_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520011_37 = v__3520802_37;
+Obj v__3520803_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520012_37 = v__3520803_37;
+R[1] = v__3520011_37;
+R[2] = v__3520012_37;
+saveCont(co, clofun45, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3520678_37= co->res;
-Obj v__3519899_37 = R[1];
-Obj v__3519900_37 = R[2];
-Obj v__3520679_37 = makeCons(co->gc, v__3519899_37, v__3519900_37);
+Obj v__3520804_37= co->res;
+Obj v__3520011_37 = R[1];
+Obj v__3520012_37 = R[2];
+Obj v__3520805_37 = makeCons(co->gc, v__3520011_37, v__3520012_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520678_37, v__3520679_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520804_37, v__3520805_37);
 return;
 }
 }
 }
 
-static void clofun43(struct Cora* co, int label, Obj *R) {
+static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519300_37 = R[1];
-R[1] = v__3519300_37;
-saveCont(co, clofun43, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 79)), v__3519300_37);
+Obj v__3519409_37 = R[1];
+R[1] = v__3519409_37;
+saveCont(co, clofun44, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519409_37);
 return;
 }
 case 1:
 {
-Obj v__3520667_37= co->res;
-Obj v__3519894_37 = R[1];
+Obj v__3520793_37= co->res;
+Obj v__3520006_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520667_37, v__3519894_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520793_37, v__3520006_37);
 return;
 }
 case 2:
 {
-Obj v__3520494_37= co->res;
-Obj v__3519300_37 = R[1];
-if (True == v__3520494_37) {
+Obj v__3520620_37= co->res;
+Obj v__3519409_37 = R[1];
+if (True == v__3520620_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3520495_37 = primIsSymbol(v__3519300_37);
-if (True == v__3520495_37) {
-Obj v__3520496_37 = makeCons(co->gc, v__3519300_37, Nil);
-coraReturn(co, v__3520496_37);
-return;
-} else {
-Obj v__3519867_37 = makeNative(co->gc, 1, clofun42, 0, 1, v__3519300_37);
-Obj v__3520650_37 = PRIM_ISCONS(v__3519300_37);
-if (True == v__3520650_37) {
-Obj v__3520651_37 = PRIM_CAR(v__3519300_37);
-Obj v__3520652_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520651_37);
-if (True == v__3520652_37) {
-Obj v__3520653_37 = PRIM_CDR(v__3519300_37);
-Obj v__3520654_37 = PRIM_ISCONS(v__3520653_37);
-if (True == v__3520654_37) {
-Obj v__3520655_37 = PRIM_CDR(v__3519300_37);
-Obj v__3520656_37 = PRIM_CAR(v__3520655_37);
-Obj v__3519894_37 = v__3520656_37;
-Obj v__3520657_37 = PRIM_CDR(v__3519300_37);
-Obj v__3520658_37 = PRIM_CDR(v__3520657_37);
-Obj v__3520659_37 = PRIM_ISCONS(v__3520658_37);
-if (True == v__3520659_37) {
-Obj v__3520660_37 = PRIM_CDR(v__3519300_37);
-Obj v__3520661_37 = PRIM_CDR(v__3520660_37);
-Obj v__3520662_37 = PRIM_CAR(v__3520661_37);
-Obj v__3519895_37 = v__3520662_37;
-Obj v__3520663_37 = PRIM_CDR(v__3519300_37);
-Obj v__3520664_37 = PRIM_CDR(v__3520663_37);
-Obj v__3520665_37 = PRIM_CDR(v__3520664_37);
-Obj v__3520666_37 = PRIM_EQ(Nil, v__3520665_37);
-if (True == v__3520666_37) {
-R[1] = v__3519894_37;
-saveCont(co, clofun43, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519895_37);
+Obj v__3520621_37 = primIsSymbol(v__3519409_37);
+if (True == v__3520621_37) {
+Obj v__3520622_37 = makeCons(co->gc, v__3519409_37, Nil);
+coraReturn(co, v__3520622_37);
+return;
+} else {
+Obj v__3519979_37 = makeNative(co->gc, 1, clofun43, 0, 1, v__3519409_37);
+Obj v__3520776_37 = PRIM_ISCONS(v__3519409_37);
+if (True == v__3520776_37) {
+Obj v__3520777_37 = PRIM_CAR(v__3519409_37);
+Obj v__3520778_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520777_37);
+if (True == v__3520778_37) {
+Obj v__3520779_37 = PRIM_CDR(v__3519409_37);
+Obj v__3520780_37 = PRIM_ISCONS(v__3520779_37);
+if (True == v__3520780_37) {
+Obj v__3520781_37 = PRIM_CDR(v__3519409_37);
+Obj v__3520782_37 = PRIM_CAR(v__3520781_37);
+Obj v__3520006_37 = v__3520782_37;
+Obj v__3520783_37 = PRIM_CDR(v__3519409_37);
+Obj v__3520784_37 = PRIM_CDR(v__3520783_37);
+Obj v__3520785_37 = PRIM_ISCONS(v__3520784_37);
+if (True == v__3520785_37) {
+Obj v__3520786_37 = PRIM_CDR(v__3519409_37);
+Obj v__3520787_37 = PRIM_CDR(v__3520786_37);
+Obj v__3520788_37 = PRIM_CAR(v__3520787_37);
+Obj v__3520007_37 = v__3520788_37;
+Obj v__3520789_37 = PRIM_CDR(v__3519409_37);
+Obj v__3520790_37 = PRIM_CDR(v__3520789_37);
+Obj v__3520791_37 = PRIM_CDR(v__3520790_37);
+Obj v__3520792_37 = PRIM_EQ(Nil, v__3520791_37);
+if (True == v__3520792_37) {
+R[1] = v__3520006_37;
+saveCont(co, clofun44, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520007_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519867_37);
+coraCall0(co, v__3519979_37);
 return;
 }
 }
@@ -6701,859 +6704,859 @@ return;
 }
 }
 
-static void clofun42(struct Cora* co, int label, Obj *R) {
+static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519868_37 = makeNative(co->gc, 1, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v__3520620_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520620_37) {
-Obj v__3520621_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520622_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520621_37);
-if (True == v__3520622_37) {
-Obj v__3520623_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520624_37 = PRIM_ISCONS(v__3520623_37);
-if (True == v__3520624_37) {
-Obj v__3520625_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520626_37 = PRIM_CAR(v__3520625_37);
-Obj v__3519891_37 = v__3520626_37;
-Obj v__3520627_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520628_37 = PRIM_CDR(v__3520627_37);
-Obj v__3520629_37 = PRIM_ISCONS(v__3520628_37);
-if (True == v__3520629_37) {
-Obj v__3520630_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520631_37 = PRIM_CDR(v__3520630_37);
-Obj v__3520632_37 = PRIM_CAR(v__3520631_37);
-Obj v__3519892_37 = v__3520632_37;
-Obj v__3520633_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520634_37 = PRIM_CDR(v__3520633_37);
-Obj v__3520635_37 = PRIM_CDR(v__3520634_37);
-Obj v__3520636_37 = PRIM_ISCONS(v__3520635_37);
-if (True == v__3520636_37) {
-Obj v__3520637_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520638_37 = PRIM_CDR(v__3520637_37);
-Obj v__3520639_37 = PRIM_CDR(v__3520638_37);
-Obj v__3520640_37 = PRIM_CAR(v__3520639_37);
-Obj v__3519893_37 = v__3520640_37;
-Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520642_37 = PRIM_CDR(v__3520641_37);
-Obj v__3520643_37 = PRIM_CDR(v__3520642_37);
-Obj v__3520644_37 = PRIM_CDR(v__3520643_37);
-Obj v__3520645_37 = PRIM_EQ(Nil, v__3520644_37);
-if (True == v__3520645_37) {
-Obj v__3520646_37 = makeCons(co->gc, v__3519893_37, Nil);
-Obj v__3520647_37 = makeCons(co->gc, v__3519892_37, v__3520646_37);
-Obj v__3520648_37 = makeCons(co->gc, v__3519891_37, v__3520647_37);
-saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520648_37);
+Obj v__3519980_37 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v__3520746_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520746_37) {
+Obj v__3520747_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520748_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520747_37);
+if (True == v__3520748_37) {
+Obj v__3520749_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520750_37 = PRIM_ISCONS(v__3520749_37);
+if (True == v__3520750_37) {
+Obj v__3520751_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520752_37 = PRIM_CAR(v__3520751_37);
+Obj v__3520003_37 = v__3520752_37;
+Obj v__3520753_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520754_37 = PRIM_CDR(v__3520753_37);
+Obj v__3520755_37 = PRIM_ISCONS(v__3520754_37);
+if (True == v__3520755_37) {
+Obj v__3520756_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520757_37 = PRIM_CDR(v__3520756_37);
+Obj v__3520758_37 = PRIM_CAR(v__3520757_37);
+Obj v__3520004_37 = v__3520758_37;
+Obj v__3520759_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520760_37 = PRIM_CDR(v__3520759_37);
+Obj v__3520761_37 = PRIM_CDR(v__3520760_37);
+Obj v__3520762_37 = PRIM_ISCONS(v__3520761_37);
+if (True == v__3520762_37) {
+Obj v__3520763_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520764_37 = PRIM_CDR(v__3520763_37);
+Obj v__3520765_37 = PRIM_CDR(v__3520764_37);
+Obj v__3520766_37 = PRIM_CAR(v__3520765_37);
+Obj v__3520005_37 = v__3520766_37;
+Obj v__3520767_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520768_37 = PRIM_CDR(v__3520767_37);
+Obj v__3520769_37 = PRIM_CDR(v__3520768_37);
+Obj v__3520770_37 = PRIM_CDR(v__3520769_37);
+Obj v__3520771_37 = PRIM_EQ(Nil, v__3520770_37);
+if (True == v__3520771_37) {
+Obj v__3520772_37 = makeCons(co->gc, v__3520005_37, Nil);
+Obj v__3520773_37 = makeCons(co->gc, v__3520004_37, v__3520772_37);
+Obj v__3520774_37 = makeCons(co->gc, v__3520003_37, v__3520773_37);
+saveCont(co, clofun43, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520774_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519868_37);
+coraCall0(co, v__3519980_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520649_37= co->res;
+Obj v__3520775_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520649_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520775_37);
 return;
 }
 }
 }
 
-static void clofun41(struct Cora* co, int label, Obj *R) {
+static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519869_37 = makeNative(co->gc, 3, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3520600_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520600_37) {
-Obj v__3520601_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520602_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520601_37);
-if (True == v__3520602_37) {
-Obj v__3520603_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520604_37 = PRIM_ISCONS(v__3520603_37);
-if (True == v__3520604_37) {
-Obj v__3520605_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520606_37 = PRIM_CAR(v__3520605_37);
-Obj v__3519889_37 = v__3520606_37;
-Obj v__3520607_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520608_37 = PRIM_CDR(v__3520607_37);
-Obj v__3520609_37 = PRIM_ISCONS(v__3520608_37);
-if (True == v__3520609_37) {
-Obj v__3520610_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520611_37 = PRIM_CDR(v__3520610_37);
-Obj v__3520612_37 = PRIM_CAR(v__3520611_37);
-Obj v__3519890_37 = v__3520612_37;
-Obj v__3520613_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520614_37 = PRIM_CDR(v__3520613_37);
-Obj v__3520615_37 = PRIM_CDR(v__3520614_37);
-Obj v__3520616_37 = PRIM_EQ(Nil, v__3520615_37);
-if (True == v__3520616_37) {
-Obj v__3520617_37 = makeCons(co->gc, v__3519890_37, Nil);
-Obj v__3520618_37 = makeCons(co->gc, v__3519889_37, v__3520617_37);
-saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520618_37);
+Obj v__3519981_37 = makeNative(co->gc, 3, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3520726_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520726_37) {
+Obj v__3520727_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520728_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520727_37);
+if (True == v__3520728_37) {
+Obj v__3520729_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520730_37 = PRIM_ISCONS(v__3520729_37);
+if (True == v__3520730_37) {
+Obj v__3520731_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520732_37 = PRIM_CAR(v__3520731_37);
+Obj v__3520001_37 = v__3520732_37;
+Obj v__3520733_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520734_37 = PRIM_CDR(v__3520733_37);
+Obj v__3520735_37 = PRIM_ISCONS(v__3520734_37);
+if (True == v__3520735_37) {
+Obj v__3520736_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520737_37 = PRIM_CDR(v__3520736_37);
+Obj v__3520738_37 = PRIM_CAR(v__3520737_37);
+Obj v__3520002_37 = v__3520738_37;
+Obj v__3520739_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520740_37 = PRIM_CDR(v__3520739_37);
+Obj v__3520741_37 = PRIM_CDR(v__3520740_37);
+Obj v__3520742_37 = PRIM_EQ(Nil, v__3520741_37);
+if (True == v__3520742_37) {
+Obj v__3520743_37 = makeCons(co->gc, v__3520002_37, Nil);
+Obj v__3520744_37 = makeCons(co->gc, v__3520001_37, v__3520743_37);
+saveCont(co, clofun42, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520744_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519869_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519869_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519869_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519869_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519869_37);
+coraCall0(co, v__3519981_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520619_37= co->res;
+Obj v__3520745_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520619_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520745_37);
 return;
 }
 }
 }
 
-static void clofun40(struct Cora* co, int label, Obj *R) {
+static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519870_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3520570_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520570_37) {
-Obj v__3520571_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520572_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520571_37);
-if (True == v__3520572_37) {
-Obj v__3520573_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520574_37 = PRIM_ISCONS(v__3520573_37);
-if (True == v__3520574_37) {
-Obj v__3520575_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520576_37 = PRIM_CAR(v__3520575_37);
-Obj v__3519886_37 = v__3520576_37;
-Obj v__3520577_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520578_37 = PRIM_CDR(v__3520577_37);
-Obj v__3520579_37 = PRIM_ISCONS(v__3520578_37);
-if (True == v__3520579_37) {
-Obj v__3520580_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520581_37 = PRIM_CDR(v__3520580_37);
-Obj v__3520582_37 = PRIM_CAR(v__3520581_37);
-Obj v__3519887_37 = v__3520582_37;
-Obj v__3520583_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520584_37 = PRIM_CDR(v__3520583_37);
-Obj v__3520585_37 = PRIM_CDR(v__3520584_37);
-Obj v__3520586_37 = PRIM_ISCONS(v__3520585_37);
-if (True == v__3520586_37) {
-Obj v__3520587_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520588_37 = PRIM_CDR(v__3520587_37);
-Obj v__3520589_37 = PRIM_CDR(v__3520588_37);
-Obj v__3520590_37 = PRIM_CAR(v__3520589_37);
-Obj v__3519888_37 = v__3520590_37;
-Obj v__3520591_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520592_37 = PRIM_CDR(v__3520591_37);
-Obj v__3520593_37 = PRIM_CDR(v__3520592_37);
-Obj v__3520594_37 = PRIM_CDR(v__3520593_37);
-Obj v__3520595_37 = PRIM_EQ(Nil, v__3520594_37);
-if (True == v__3520595_37) {
-R[1] = v__3519888_37;
-R[2] = v__3519886_37;
-saveCont(co, clofun40, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519887_37);
+Obj v__3519982_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3520696_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520696_37) {
+Obj v__3520697_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520698_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520697_37);
+if (True == v__3520698_37) {
+Obj v__3520699_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520700_37 = PRIM_ISCONS(v__3520699_37);
+if (True == v__3520700_37) {
+Obj v__3520701_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520702_37 = PRIM_CAR(v__3520701_37);
+Obj v__3519998_37 = v__3520702_37;
+Obj v__3520703_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520704_37 = PRIM_CDR(v__3520703_37);
+Obj v__3520705_37 = PRIM_ISCONS(v__3520704_37);
+if (True == v__3520705_37) {
+Obj v__3520706_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520707_37 = PRIM_CDR(v__3520706_37);
+Obj v__3520708_37 = PRIM_CAR(v__3520707_37);
+Obj v__3519999_37 = v__3520708_37;
+Obj v__3520709_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520710_37 = PRIM_CDR(v__3520709_37);
+Obj v__3520711_37 = PRIM_CDR(v__3520710_37);
+Obj v__3520712_37 = PRIM_ISCONS(v__3520711_37);
+if (True == v__3520712_37) {
+Obj v__3520713_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520714_37 = PRIM_CDR(v__3520713_37);
+Obj v__3520715_37 = PRIM_CDR(v__3520714_37);
+Obj v__3520716_37 = PRIM_CAR(v__3520715_37);
+Obj v__3520000_37 = v__3520716_37;
+Obj v__3520717_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520718_37 = PRIM_CDR(v__3520717_37);
+Obj v__3520719_37 = PRIM_CDR(v__3520718_37);
+Obj v__3520720_37 = PRIM_CDR(v__3520719_37);
+Obj v__3520721_37 = PRIM_EQ(Nil, v__3520720_37);
+if (True == v__3520721_37) {
+R[1] = v__3520000_37;
+R[2] = v__3519998_37;
+saveCont(co, clofun41, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519999_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519870_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519870_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519870_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519870_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519870_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519870_37);
+coraCall0(co, v__3519982_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520599_37= co->res;
-Obj v__3520596_37 = R[1];
+Obj v__3520725_37= co->res;
+Obj v__3520722_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3520596_37, v__3520599_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3520722_37, v__3520725_37);
 return;
 }
 case 2:
 {
-Obj v__3520597_37= co->res;
-Obj v__3519886_37 = R[1];
-Obj v__3520596_37 = R[2];
-Obj v__3520598_37 = makeCons(co->gc, v__3519886_37, Nil);
-R[1] = v__3520596_37;
-saveCont(co, clofun40, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520597_37, v__3520598_37);
+Obj v__3520723_37= co->res;
+Obj v__3519998_37 = R[1];
+Obj v__3520722_37 = R[2];
+Obj v__3520724_37 = makeCons(co->gc, v__3519998_37, Nil);
+R[1] = v__3520722_37;
+saveCont(co, clofun41, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520723_37, v__3520724_37);
 return;
 }
 case 3:
 {
-Obj v__3520596_37= co->res;
-Obj v__3519888_37 = R[1];
-Obj v__3519886_37 = R[2];
-R[1] = v__3519886_37;
-R[2] = v__3520596_37;
-saveCont(co, clofun40, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519888_37);
+Obj v__3520722_37= co->res;
+Obj v__3520000_37 = R[1];
+Obj v__3519998_37 = R[2];
+R[1] = v__3519998_37;
+R[2] = v__3520722_37;
+saveCont(co, clofun41, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520000_37);
 return;
 }
 }
 }
 
-static void clofun39(struct Cora* co, int label, Obj *R) {
+static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519871_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3520560_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520560_37) {
-Obj v__3520561_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520562_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3520561_37);
-if (True == v__3520562_37) {
-Obj v__3520563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520564_37 = PRIM_ISCONS(v__3520563_37);
-if (True == v__3520564_37) {
-Obj v__3520565_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520566_37 = PRIM_CAR(v__3520565_37);
-Obj v__3519884_37 = v__3520566_37;
-Obj v__3520567_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520568_37 = PRIM_CDR(v__3520567_37);
-Obj v__3519885_37 = v__3520568_37;
-Obj v__3520569_37 = makeCons(co->gc, v__3519884_37, v__3519885_37);
+Obj v__3519983_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3520686_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520686_37) {
+Obj v__3520687_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520688_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520687_37);
+if (True == v__3520688_37) {
+Obj v__3520689_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520690_37 = PRIM_ISCONS(v__3520689_37);
+if (True == v__3520690_37) {
+Obj v__3520691_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520692_37 = PRIM_CAR(v__3520691_37);
+Obj v__3519996_37 = v__3520692_37;
+Obj v__3520693_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520694_37 = PRIM_CDR(v__3520693_37);
+Obj v__3519997_37 = v__3520694_37;
+Obj v__3520695_37 = makeCons(co->gc, v__3519996_37, v__3519997_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3520569_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520695_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519871_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519871_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519871_37);
+coraCall0(co, v__3519983_37);
 return;
 }
 }
 }
 }
 
-static void clofun38(struct Cora* co, int label, Obj *R) {
+static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519872_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3520550_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520550_37) {
-Obj v__3520551_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520552_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3520551_37);
-if (True == v__3520552_37) {
-Obj v__3520553_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520554_37 = PRIM_ISCONS(v__3520553_37);
-if (True == v__3520554_37) {
-Obj v__3520555_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520556_37 = PRIM_CAR(v__3520555_37);
-Obj v__3519883_37 = v__3520556_37;
-Obj v__3520557_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520558_37 = PRIM_CDR(v__3520557_37);
-Obj v__3520559_37 = PRIM_EQ(Nil, v__3520558_37);
-if (True == v__3520559_37) {
+Obj v__3519984_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3520676_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520676_37) {
+Obj v__3520677_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520678_37 = PRIM_EQ(getBinding(co, packageID, 71).name, v__3520677_37);
+if (True == v__3520678_37) {
+Obj v__3520679_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520680_37 = PRIM_ISCONS(v__3520679_37);
+if (True == v__3520680_37) {
+Obj v__3520681_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520682_37 = PRIM_CAR(v__3520681_37);
+Obj v__3519995_37 = v__3520682_37;
+Obj v__3520683_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520684_37 = PRIM_CDR(v__3520683_37);
+Obj v__3520685_37 = PRIM_EQ(Nil, v__3520684_37);
+if (True == v__3520685_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519883_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519995_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519872_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519872_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519872_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519872_37);
+coraCall0(co, v__3519984_37);
 return;
 }
 }
 }
 }
 
-static void clofun37(struct Cora* co, int label, Obj *R) {
+static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519873_37 = makeNative(co->gc, 1, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3520530_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520530_37) {
-Obj v__3520531_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520532_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520531_37);
-if (True == v__3520532_37) {
-Obj v__3520533_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520534_37 = PRIM_ISCONS(v__3520533_37);
-if (True == v__3520534_37) {
-Obj v__3520535_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520536_37 = PRIM_CAR(v__3520535_37);
-Obj v__3519881_37 = v__3520536_37;
-Obj v__3520537_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520538_37 = PRIM_CDR(v__3520537_37);
-Obj v__3520539_37 = PRIM_ISCONS(v__3520538_37);
-if (True == v__3520539_37) {
-Obj v__3520540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520541_37 = PRIM_CDR(v__3520540_37);
-Obj v__3520542_37 = PRIM_CAR(v__3520541_37);
-Obj v__3519882_37 = v__3520542_37;
-Obj v__3520543_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520544_37 = PRIM_CDR(v__3520543_37);
-Obj v__3520545_37 = PRIM_CDR(v__3520544_37);
-Obj v__3520546_37 = PRIM_EQ(Nil, v__3520545_37);
-if (True == v__3520546_37) {
-Obj v__3520547_37 = makeCons(co->gc, v__3519882_37, Nil);
-Obj v__3520548_37 = makeCons(co->gc, v__3519881_37, v__3520547_37);
-saveCont(co, clofun37, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520548_37);
+Obj v__3519985_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3520656_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520656_37) {
+Obj v__3520657_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520658_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3520657_37);
+if (True == v__3520658_37) {
+Obj v__3520659_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520660_37 = PRIM_ISCONS(v__3520659_37);
+if (True == v__3520660_37) {
+Obj v__3520661_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520662_37 = PRIM_CAR(v__3520661_37);
+Obj v__3519993_37 = v__3520662_37;
+Obj v__3520663_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520664_37 = PRIM_CDR(v__3520663_37);
+Obj v__3520665_37 = PRIM_ISCONS(v__3520664_37);
+if (True == v__3520665_37) {
+Obj v__3520666_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520667_37 = PRIM_CDR(v__3520666_37);
+Obj v__3520668_37 = PRIM_CAR(v__3520667_37);
+Obj v__3519994_37 = v__3520668_37;
+Obj v__3520669_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520670_37 = PRIM_CDR(v__3520669_37);
+Obj v__3520671_37 = PRIM_CDR(v__3520670_37);
+Obj v__3520672_37 = PRIM_EQ(Nil, v__3520671_37);
+if (True == v__3520672_37) {
+Obj v__3520673_37 = makeCons(co->gc, v__3519994_37, Nil);
+Obj v__3520674_37 = makeCons(co->gc, v__3519993_37, v__3520673_37);
+saveCont(co, clofun38, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520674_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519873_37);
+coraCall0(co, v__3519985_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519873_37);
+coraCall0(co, v__3519985_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519873_37);
+coraCall0(co, v__3519985_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519873_37);
+coraCall0(co, v__3519985_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519873_37);
+coraCall0(co, v__3519985_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520549_37= co->res;
+Obj v__3520675_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520549_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520675_37);
 return;
 }
 }
 }
 
-static void clofun36(struct Cora* co, int label, Obj *R) {
+static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519874_37 = makeNative(co->gc, 2, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v__3520520_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520520_37) {
-Obj v__3520521_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520522_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520521_37);
-if (True == v__3520522_37) {
-Obj v__3520523_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520524_37 = PRIM_ISCONS(v__3520523_37);
-if (True == v__3520524_37) {
-Obj v__3520525_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520526_37 = PRIM_CAR(v__3520525_37);
-Obj v__3519880_37 = v__3520526_37;
-Obj v__3520527_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520528_37 = PRIM_CDR(v__3520527_37);
-Obj v__3520529_37 = PRIM_EQ(Nil, v__3520528_37);
-if (True == v__3520529_37) {
+Obj v__3519986_37 = makeNative(co->gc, 2, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3520646_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520646_37) {
+Obj v__3520647_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520648_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520647_37);
+if (True == v__3520648_37) {
+Obj v__3520649_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520650_37 = PRIM_ISCONS(v__3520649_37);
+if (True == v__3520650_37) {
+Obj v__3520651_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520652_37 = PRIM_CAR(v__3520651_37);
+Obj v__3519992_37 = v__3520652_37;
+Obj v__3520653_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520654_37 = PRIM_CDR(v__3520653_37);
+Obj v__3520655_37 = PRIM_EQ(Nil, v__3520654_37);
+if (True == v__3520655_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519880_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519992_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519874_37);
+coraCall0(co, v__3519986_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519874_37);
+coraCall0(co, v__3519986_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519874_37);
+coraCall0(co, v__3519986_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519874_37);
+coraCall0(co, v__3519986_37);
 return;
 }
 }
 }
 }
 
-static void clofun35(struct Cora* co, int label, Obj *R) {
+static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519875_37 = makeNative(co->gc, 1, clofun34, 0, 1, closureRef(R[0], 0));
-Obj v__3520502_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520502_37) {
-Obj v__3520503_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520504_37 = PRIM_EQ(getBinding(co, packageID, 75).name, v__3520503_37);
-if (True == v__3520504_37) {
-Obj v__3520505_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520506_37 = PRIM_ISCONS(v__3520505_37);
-if (True == v__3520506_37) {
-Obj v__3520507_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520508_37 = PRIM_CAR(v__3520507_37);
-Obj v__3519878_37 = v__3520508_37;
-Obj v__3520509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520510_37 = PRIM_CDR(v__3520509_37);
-Obj v__3520511_37 = PRIM_ISCONS(v__3520510_37);
-if (True == v__3520511_37) {
-Obj v__3520512_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520513_37 = PRIM_CDR(v__3520512_37);
-Obj v__3520514_37 = PRIM_CAR(v__3520513_37);
-Obj v__3519879_37 = v__3520514_37;
-Obj v__3520515_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520516_37 = PRIM_CDR(v__3520515_37);
-Obj v__3520517_37 = PRIM_CDR(v__3520516_37);
-Obj v__3520518_37 = PRIM_EQ(Nil, v__3520517_37);
-if (True == v__3520518_37) {
-R[1] = v__3519878_37;
-saveCont(co, clofun35, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 76)), v__3519879_37);
+Obj v__3519987_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3520628_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520628_37) {
+Obj v__3520629_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520630_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520629_37);
+if (True == v__3520630_37) {
+Obj v__3520631_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520632_37 = PRIM_ISCONS(v__3520631_37);
+if (True == v__3520632_37) {
+Obj v__3520633_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520634_37 = PRIM_CAR(v__3520633_37);
+Obj v__3519990_37 = v__3520634_37;
+Obj v__3520635_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520636_37 = PRIM_CDR(v__3520635_37);
+Obj v__3520637_37 = PRIM_ISCONS(v__3520636_37);
+if (True == v__3520637_37) {
+Obj v__3520638_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520639_37 = PRIM_CDR(v__3520638_37);
+Obj v__3520640_37 = PRIM_CAR(v__3520639_37);
+Obj v__3519991_37 = v__3520640_37;
+Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520642_37 = PRIM_CDR(v__3520641_37);
+Obj v__3520643_37 = PRIM_CDR(v__3520642_37);
+Obj v__3520644_37 = PRIM_EQ(Nil, v__3520643_37);
+if (True == v__3520644_37) {
+R[1] = v__3519990_37;
+saveCont(co, clofun36, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519991_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519875_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519875_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519875_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519875_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519875_37);
+coraCall0(co, v__3519987_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520519_37= co->res;
-Obj v__3519878_37 = R[1];
+Obj v__3520645_37= co->res;
+Obj v__3519990_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3520519_37, v__3519878_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520645_37, v__3519990_37);
 return;
 }
 }
 }
 
-static void clofun34(struct Cora* co, int label, Obj *R) {
+static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520497_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520497_37) {
-Obj v__3520498_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519876_37 = v__3520498_37;
-Obj v__3520499_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519877_37 = v__3520499_37;
-Obj v__3520500_37 = makeCons(co->gc, v__3519876_37, v__3519877_37);
-saveCont(co, clofun34, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), globalRef(co, getBinding(co, packageID, 76)), v__3520500_37);
+Obj v__3520623_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520623_37) {
+Obj v__3520624_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519988_37 = v__3520624_37;
+Obj v__3520625_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519989_37 = v__3520625_37;
+Obj v__3520626_37 = makeCons(co->gc, v__3519988_37, v__3519989_37);
+saveCont(co, clofun35, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520626_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3520501_37= co->res;
+Obj v__3520627_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), globalRef(co, getBinding(co, packageID, 82)), Nil, v__3520501_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520627_37);
 return;
 }
 }
 }
 
-static void clofun33(struct Cora* co, int label, Obj *R) {
+static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519292_37 = R[1];
-Obj v__3519860_37 = makeNative(co->gc, 1, clofun32, 0, 1, v__3519292_37);
-Obj v__3520483_37 = PRIM_ISCONS(v__3519292_37);
-if (True == v__3520483_37) {
-Obj v__3520484_37 = PRIM_CAR(v__3519292_37);
-Obj v__3520485_37 = PRIM_EQ(getBinding(co, packageID, 96).name, v__3520484_37);
-if (True == v__3520485_37) {
-Obj v__3520486_37 = PRIM_CDR(v__3519292_37);
-Obj v__3520487_37 = PRIM_ISCONS(v__3520486_37);
-if (True == v__3520487_37) {
-Obj v__3520488_37 = PRIM_CDR(v__3519292_37);
-Obj v__3520489_37 = PRIM_CAR(v__3520488_37);
-Obj v__3520490_37 = PRIM_CDR(v__3519292_37);
-Obj v__3520491_37 = PRIM_CDR(v__3520490_37);
-Obj v__3520492_37 = PRIM_EQ(Nil, v__3520491_37);
-if (True == v__3520492_37) {
+Obj v__3519401_37 = R[1];
+Obj v__3519972_37 = makeNative(co->gc, 1, clofun33, 0, 1, v__3519401_37);
+Obj v__3520609_37 = PRIM_ISCONS(v__3519401_37);
+if (True == v__3520609_37) {
+Obj v__3520610_37 = PRIM_CAR(v__3519401_37);
+Obj v__3520611_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3520610_37);
+if (True == v__3520611_37) {
+Obj v__3520612_37 = PRIM_CDR(v__3519401_37);
+Obj v__3520613_37 = PRIM_ISCONS(v__3520612_37);
+if (True == v__3520613_37) {
+Obj v__3520614_37 = PRIM_CDR(v__3519401_37);
+Obj v__3520615_37 = PRIM_CAR(v__3520614_37);
+Obj v__3520616_37 = PRIM_CDR(v__3519401_37);
+Obj v__3520617_37 = PRIM_CDR(v__3520616_37);
+Obj v__3520618_37 = PRIM_EQ(Nil, v__3520617_37);
+if (True == v__3520618_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519860_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 }
 }
 }
 
-static void clofun32(struct Cora* co, int label, Obj *R) {
+static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519861_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj v__3520473_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520473_37) {
-Obj v__3520474_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520475_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520474_37);
-if (True == v__3520475_37) {
-Obj v__3520476_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520477_37 = PRIM_ISCONS(v__3520476_37);
-if (True == v__3520477_37) {
-Obj v__3520478_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520479_37 = PRIM_CAR(v__3520478_37);
-Obj v__3520480_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520481_37 = PRIM_CDR(v__3520480_37);
-Obj v__3520482_37 = PRIM_EQ(Nil, v__3520481_37);
-if (True == v__3520482_37) {
+Obj v__3519973_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v__3520599_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520599_37) {
+Obj v__3520600_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520601_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520600_37);
+if (True == v__3520601_37) {
+Obj v__3520602_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520603_37 = PRIM_ISCONS(v__3520602_37);
+if (True == v__3520603_37) {
+Obj v__3520604_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520605_37 = PRIM_CAR(v__3520604_37);
+Obj v__3520606_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520607_37 = PRIM_CDR(v__3520606_37);
+Obj v__3520608_37 = PRIM_EQ(Nil, v__3520607_37);
+if (True == v__3520608_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519861_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 }
 }
 }
 
-static void clofun31(struct Cora* co, int label, Obj *R) {
+static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519862_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3520463_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520463_37) {
-Obj v__3520464_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520465_37 = PRIM_EQ(getBinding(co, packageID, 91).name, v__3520464_37);
-if (True == v__3520465_37) {
-Obj v__3520466_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520467_37 = PRIM_ISCONS(v__3520466_37);
-if (True == v__3520467_37) {
-Obj v__3520468_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520469_37 = PRIM_CAR(v__3520468_37);
-Obj v__3520470_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520471_37 = PRIM_CDR(v__3520470_37);
-Obj v__3520472_37 = PRIM_EQ(Nil, v__3520471_37);
-if (True == v__3520472_37) {
+Obj v__3519974_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3520589_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520589_37) {
+Obj v__3520590_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520591_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520590_37);
+if (True == v__3520591_37) {
+Obj v__3520592_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520593_37 = PRIM_ISCONS(v__3520592_37);
+if (True == v__3520593_37) {
+Obj v__3520594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520595_37 = PRIM_CAR(v__3520594_37);
+Obj v__3520596_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520597_37 = PRIM_CDR(v__3520596_37);
+Obj v__3520598_37 = PRIM_EQ(Nil, v__3520597_37);
+if (True == v__3520598_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519862_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 }
 }
 }
 
-static void clofun30(struct Cora* co, int label, Obj *R) {
+static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519863_37 = makeNative(co->gc, 1, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v__3520453_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520453_37) {
-Obj v__3520454_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520455_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520454_37);
-if (True == v__3520455_37) {
-Obj v__3520456_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520457_37 = PRIM_ISCONS(v__3520456_37);
-if (True == v__3520457_37) {
-Obj v__3520458_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520459_37 = PRIM_CAR(v__3520458_37);
-Obj v__3520460_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520461_37 = PRIM_CDR(v__3520460_37);
-Obj v__3520462_37 = PRIM_EQ(Nil, v__3520461_37);
-if (True == v__3520462_37) {
+Obj v__3519975_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3520579_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520579_37) {
+Obj v__3520580_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520581_37 = PRIM_EQ(getBinding(co, packageID, 84).name, v__3520580_37);
+if (True == v__3520581_37) {
+Obj v__3520582_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520583_37 = PRIM_ISCONS(v__3520582_37);
+if (True == v__3520583_37) {
+Obj v__3520584_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520585_37 = PRIM_CAR(v__3520584_37);
+Obj v__3520586_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520587_37 = PRIM_CDR(v__3520586_37);
+Obj v__3520588_37 = PRIM_EQ(Nil, v__3520587_37);
+if (True == v__3520588_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519863_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 }
 }
 }
 
-static void clofun29(struct Cora* co, int label, Obj *R) {
+static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519864_37 = makeNative(co->gc, 2, clofun28, 0, 1, closureRef(R[0], 0));
-Obj v__3520443_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520443_37) {
-Obj v__3520444_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520445_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520444_37);
-if (True == v__3520445_37) {
-Obj v__3520446_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520447_37 = PRIM_ISCONS(v__3520446_37);
-if (True == v__3520447_37) {
-Obj v__3520448_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520449_37 = PRIM_CAR(v__3520448_37);
-Obj v__3520450_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520451_37 = PRIM_CDR(v__3520450_37);
-Obj v__3520452_37 = PRIM_EQ(Nil, v__3520451_37);
-if (True == v__3520452_37) {
+Obj v__3519976_37 = makeNative(co->gc, 2, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3520569_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520569_37) {
+Obj v__3520570_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520571_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3520570_37);
+if (True == v__3520571_37) {
+Obj v__3520572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520573_37 = PRIM_ISCONS(v__3520572_37);
+if (True == v__3520573_37) {
+Obj v__3520574_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520575_37 = PRIM_CAR(v__3520574_37);
+Obj v__3520576_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520577_37 = PRIM_CDR(v__3520576_37);
+Obj v__3520578_37 = PRIM_EQ(Nil, v__3520577_37);
+if (True == v__3520578_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519864_37);
+coraCall0(co, v__3519976_37);
 return;
 }
 }
 }
 }
 
-static void clofun28(struct Cora* co, int label, Obj *R) {
+static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519865_37 = makeNative(co->gc, 1, clofun27, 0, 0);
-Obj v__3520433_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520433_37) {
-Obj v__3520434_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520435_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3520434_37);
-if (True == v__3520435_37) {
-Obj v__3520436_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520437_37 = PRIM_ISCONS(v__3520436_37);
-if (True == v__3520437_37) {
-Obj v__3520438_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520439_37 = PRIM_CAR(v__3520438_37);
-Obj v__3519866_37 = v__3520439_37;
-Obj v__3520440_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520441_37 = PRIM_CDR(v__3520440_37);
-R[1] = v__3519865_37;
-saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3519866_37);
+Obj v__3519977_37 = makeNative(co->gc, 1, clofun28, 0, 0);
+Obj v__3520559_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520559_37) {
+Obj v__3520560_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520561_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520560_37);
+if (True == v__3520561_37) {
+Obj v__3520562_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520563_37 = PRIM_ISCONS(v__3520562_37);
+if (True == v__3520563_37) {
+Obj v__3520564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520565_37 = PRIM_CAR(v__3520564_37);
+Obj v__3519978_37 = v__3520565_37;
+Obj v__3520566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520567_37 = PRIM_CDR(v__3520566_37);
+R[1] = v__3519977_37;
+saveCont(co, clofun29, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519978_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520442_37= co->res;
-Obj v__3519865_37 = R[1];
-if (True == v__3520442_37) {
+Obj v__3520568_37= co->res;
+Obj v__3519977_37 = R[1];
+if (True == v__3520568_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519865_37);
+coraCall0(co, v__3519977_37);
 return;
 }
 }
 }
 }
 
-static void clofun27(struct Cora* co, int label, Obj *R) {
+static void clofun28(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
@@ -7563,232 +7566,232 @@ return;
 }
 }
 
-static void clofun26(struct Cora* co, int label, Obj *R) {
+static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519280_37 = R[1];
-Obj v__3519281_37 = R[2];
-Obj v__3520422_37 = PRIM_EQ(Nil, v__3519280_37);
-if (True == v__3520422_37) {
+Obj v__3519389_37 = R[1];
+Obj v__3519390_37 = R[2];
+Obj v__3520548_37 = PRIM_EQ(Nil, v__3519389_37);
+if (True == v__3520548_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519855_37 = makeNative(co->gc, 2, clofun25, 0, 2, v__3519280_37, v__3519281_37);
-Obj v__3520428_37 = PRIM_ISCONS(v__3519280_37);
-if (True == v__3520428_37) {
-Obj v__3520429_37 = PRIM_CAR(v__3519280_37);
-Obj v__3519858_37 = v__3520429_37;
-Obj v__3520430_37 = PRIM_CDR(v__3519280_37);
-Obj v__3519859_37 = v__3520430_37;
-R[1] = v__3519859_37;
-R[2] = v__3519281_37;
-R[3] = v__3519855_37;
-saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519858_37, v__3519281_37);
+Obj v__3519967_37 = makeNative(co->gc, 2, clofun26, 0, 2, v__3519389_37, v__3519390_37);
+Obj v__3520554_37 = PRIM_ISCONS(v__3519389_37);
+if (True == v__3520554_37) {
+Obj v__3520555_37 = PRIM_CAR(v__3519389_37);
+Obj v__3519970_37 = v__3520555_37;
+Obj v__3520556_37 = PRIM_CDR(v__3519389_37);
+Obj v__3519971_37 = v__3520556_37;
+R[1] = v__3519971_37;
+R[2] = v__3519390_37;
+R[3] = v__3519967_37;
+saveCont(co, clofun27, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519970_37, v__3519390_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519855_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520431_37= co->res;
-Obj v__3519859_37 = R[1];
-Obj v__3519281_37 = R[2];
-Obj v__3519855_37 = R[3];
-if (True == v__3520431_37) {
+Obj v__3520557_37= co->res;
+Obj v__3519971_37 = R[1];
+Obj v__3519390_37 = R[2];
+Obj v__3519967_37 = R[3];
+if (True == v__3520557_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519859_37, v__3519281_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3519971_37, v__3519390_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519855_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 }
 }
 }
 
-static void clofun25(struct Cora* co, int label, Obj *R) {
+static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520423_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520423_37) {
-Obj v__3520424_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519856_37 = v__3520424_37;
-Obj v__3520425_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519857_37 = v__3520425_37;
-R[1] = v__3519856_37;
-saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519857_37, closureRef(R[0], 1));
+Obj v__3520549_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520549_37) {
+Obj v__3520550_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519968_37 = v__3520550_37;
+Obj v__3520551_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519969_37 = v__3520551_37;
+R[1] = v__3519968_37;
+saveCont(co, clofun26, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3519969_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3520426_37= co->res;
-Obj v__3519856_37 = R[1];
-Obj v__3520427_37 = makeCons(co->gc, v__3519856_37, v__3520426_37);
-coraReturn(co, v__3520427_37);
+Obj v__3520552_37= co->res;
+Obj v__3519968_37 = R[1];
+Obj v__3520553_37 = makeCons(co->gc, v__3519968_37, v__3520552_37);
+coraReturn(co, v__3520553_37);
 return;
 }
 }
 }
 
-static void clofun24(struct Cora* co, int label, Obj *R) {
+static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519268_37 = R[1];
-Obj v__3519269_37 = R[2];
-Obj v__3520411_37 = PRIM_EQ(Nil, v__3519268_37);
-if (True == v__3520411_37) {
-coraReturn(co, v__3519269_37);
-return;
-} else {
-Obj v__3519850_37 = makeNative(co->gc, 2, clofun23, 0, 2, v__3519268_37, v__3519269_37);
-Obj v__3520417_37 = PRIM_ISCONS(v__3519268_37);
-if (True == v__3520417_37) {
-Obj v__3520418_37 = PRIM_CAR(v__3519268_37);
-Obj v__3519853_37 = v__3520418_37;
-Obj v__3520419_37 = PRIM_CDR(v__3519268_37);
-Obj v__3519854_37 = v__3520419_37;
-R[1] = v__3519854_37;
-R[2] = v__3519269_37;
-R[3] = v__3519850_37;
-saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519853_37, v__3519269_37);
+Obj v__3519377_37 = R[1];
+Obj v__3519378_37 = R[2];
+Obj v__3520537_37 = PRIM_EQ(Nil, v__3519377_37);
+if (True == v__3520537_37) {
+coraReturn(co, v__3519378_37);
+return;
+} else {
+Obj v__3519962_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3519377_37, v__3519378_37);
+Obj v__3520543_37 = PRIM_ISCONS(v__3519377_37);
+if (True == v__3520543_37) {
+Obj v__3520544_37 = PRIM_CAR(v__3519377_37);
+Obj v__3519965_37 = v__3520544_37;
+Obj v__3520545_37 = PRIM_CDR(v__3519377_37);
+Obj v__3519966_37 = v__3520545_37;
+R[1] = v__3519966_37;
+R[2] = v__3519378_37;
+R[3] = v__3519962_37;
+saveCont(co, clofun25, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519965_37, v__3519378_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519850_37);
+coraCall0(co, v__3519962_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520420_37= co->res;
-Obj v__3519854_37 = R[1];
-Obj v__3519269_37 = R[2];
-Obj v__3519850_37 = R[3];
-if (True == v__3520420_37) {
+Obj v__3520546_37= co->res;
+Obj v__3519966_37 = R[1];
+Obj v__3519378_37 = R[2];
+Obj v__3519962_37 = R[3];
+if (True == v__3520546_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519854_37, v__3519269_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519966_37, v__3519378_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519850_37);
+coraCall0(co, v__3519962_37);
 return;
 }
 }
 }
 }
 
-static void clofun23(struct Cora* co, int label, Obj *R) {
+static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520412_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520412_37) {
-Obj v__3520413_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519851_37 = v__3520413_37;
-Obj v__3520414_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519852_37 = v__3520414_37;
-R[1] = v__3519851_37;
-saveCont(co, clofun23, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 82)), v__3519852_37, closureRef(R[0], 1));
+Obj v__3520538_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520538_37) {
+Obj v__3520539_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519963_37 = v__3520539_37;
+Obj v__3520540_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519964_37 = v__3520540_37;
+R[1] = v__3519963_37;
+saveCont(co, clofun24, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519964_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 case 1:
 {
-Obj v__3520415_37= co->res;
-Obj v__3519851_37 = R[1];
-Obj v__3520416_37 = makeCons(co->gc, v__3519851_37, v__3520415_37);
-coraReturn(co, v__3520416_37);
+Obj v__3520541_37= co->res;
+Obj v__3519963_37 = R[1];
+Obj v__3520542_37 = makeCons(co->gc, v__3519963_37, v__3520541_37);
+coraReturn(co, v__3520542_37);
 return;
 }
 }
 }
 
-static void clofun22(struct Cora* co, int label, Obj *R) {
+static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519172_37 = R[1];
-Obj v__3519173_37 = R[2];
-Obj v__3519174_37 = R[3];
-Obj v__3519815_37 = makeNative(co->gc, 2, clofun21, 1, 3, v__3519174_37, v__3519172_37, v__3519173_37);
-R[1] = v__3519174_37;
-R[2] = v__3519815_37;
-saveCont(co, clofun22, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 84)), v__3519174_37);
+Obj v__3519281_37 = R[1];
+Obj v__3519282_37 = R[2];
+Obj v__3519283_37 = R[3];
+Obj v__3519927_37 = makeNative(co->gc, 2, clofun22, 1, 3, v__3519283_37, v__3519281_37, v__3519282_37);
+R[1] = v__3519283_37;
+R[2] = v__3519927_37;
+saveCont(co, clofun23, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519283_37);
 return;
 }
 case 1:
 {
-Obj v__3520409_37= co->res;
-Obj v__3519815_37 = R[1];
-if (True == v__3520409_37) {
+Obj v__3520535_37= co->res;
+Obj v__3519927_37 = R[1];
+if (True == v__3520535_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519815_37, True);
+coraCall1(co, v__3519927_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519815_37, False);
+coraCall1(co, v__3519927_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520408_37= co->res;
-Obj v__3519174_37 = R[1];
-Obj v__3519815_37 = R[2];
-if (True == v__3520408_37) {
+Obj v__3520534_37= co->res;
+Obj v__3519283_37 = R[1];
+Obj v__3519927_37 = R[2];
+if (True == v__3520534_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519815_37, True);
+coraCall1(co, v__3519927_37, True);
 return;
 } else {
-R[1] = v__3519815_37;
-saveCont(co, clofun22, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519174_37);
+R[1] = v__3519927_37;
+saveCont(co, clofun23, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519283_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3520406_37= co->res;
-Obj v__3519174_37 = R[1];
-Obj v__3519815_37 = R[2];
-if (True == v__3520406_37) {
+Obj v__3520532_37= co->res;
+Obj v__3519283_37 = R[1];
+Obj v__3519927_37 = R[2];
+if (True == v__3520532_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519815_37, True);
+coraCall1(co, v__3519927_37, True);
 return;
 } else {
-Obj v__3520407_37 = primIsString(v__3519174_37);
-if (True == v__3520407_37) {
+Obj v__3520533_37 = primIsString(v__3519283_37);
+if (True == v__3520533_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519815_37, True);
+coraCall1(co, v__3519927_37, True);
 return;
 } else {
-R[1] = v__3519174_37;
-R[2] = v__3519815_37;
-saveCont(co, clofun22, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519174_37);
+R[1] = v__3519283_37;
+R[2] = v__3519927_37;
+saveCont(co, clofun23, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v__3519283_37);
 return;
 }
 }
@@ -7796,705 +7799,705 @@ return;
 }
 }
 
-static void clofun21(struct Cora* co, int label, Obj *R) {
+static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519814_37 = R[1];
-if (True == v__3519814_37) {
-Obj v__3520196_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520197_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3520196_37);
-coraReturn(co, v__3520197_37);
-return;
-} else {
-Obj v__3519816_37 = makeNative(co->gc, 3, clofun20, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520380_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520380_37) {
-Obj v__3520381_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520382_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520381_37);
-if (True == v__3520382_37) {
-Obj v__3520383_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520384_37 = PRIM_ISCONS(v__3520383_37);
-if (True == v__3520384_37) {
-Obj v__3520385_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520386_37 = PRIM_CAR(v__3520385_37);
-Obj v__3519849_37 = v__3520386_37;
-Obj v__3520387_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520388_37 = PRIM_CDR(v__3520387_37);
-Obj v__3520389_37 = PRIM_EQ(Nil, v__3520388_37);
-if (True == v__3520389_37) {
-Obj v__3520390_37 = primIsSymbol(v__3519849_37);
-if (True == v__3520390_37) {
-R[1] = v__3519849_37;
-saveCont(co, clofun21, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), v__3519849_37, closureRef(R[0], 2));
+Obj v__3519926_37 = R[1];
+if (True == v__3519926_37) {
+Obj v__3520326_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520327_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520326_37);
+coraReturn(co, v__3520327_37);
+return;
+} else {
+Obj v__3519928_37 = makeNative(co->gc, 3, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520506_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520506_37) {
+Obj v__3520507_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520508_37 = PRIM_EQ(getBinding(co, packageID, 84).name, v__3520507_37);
+if (True == v__3520508_37) {
+Obj v__3520509_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520510_37 = PRIM_ISCONS(v__3520509_37);
+if (True == v__3520510_37) {
+Obj v__3520511_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520512_37 = PRIM_CAR(v__3520511_37);
+Obj v__3519961_37 = v__3520512_37;
+Obj v__3520513_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520514_37 = PRIM_CDR(v__3520513_37);
+Obj v__3520515_37 = PRIM_EQ(Nil, v__3520514_37);
+if (True == v__3520515_37) {
+Obj v__3520516_37 = primIsSymbol(v__3519961_37);
+if (True == v__3520516_37) {
+R[1] = v__3519961_37;
+saveCont(co, clofun22, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3519961_37, closureRef(R[0], 2));
 return;
 } else {
-Obj v__3520394_37 = PRIM_ISCONS(v__3519849_37);
-if (True == v__3520394_37) {
-Obj v__3520395_37 = PRIM_CAR(v__3519849_37);
-Obj v__3520396_37 = makeCons(co->gc, v__3520395_37, Nil);
-Obj v__3520397_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520396_37);
-Obj v__3520398_37 = PRIM_CDR(v__3519849_37);
-Obj v__3520399_37 = makeCons(co->gc, v__3520398_37, Nil);
-Obj v__3520400_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520399_37);
-Obj v__3520401_37 = makeCons(co->gc, v__3520400_37, Nil);
-Obj v__3520402_37 = makeCons(co->gc, v__3520397_37, v__3520401_37);
-Obj v__3520403_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520402_37);
+Obj v__3520520_37 = PRIM_ISCONS(v__3519961_37);
+if (True == v__3520520_37) {
+Obj v__3520521_37 = PRIM_CAR(v__3519961_37);
+Obj v__3520522_37 = makeCons(co->gc, v__3520521_37, Nil);
+Obj v__3520523_37 = makeCons(co->gc, getBinding(co, packageID, 84).name, v__3520522_37);
+Obj v__3520524_37 = PRIM_CDR(v__3519961_37);
+Obj v__3520525_37 = makeCons(co->gc, v__3520524_37, Nil);
+Obj v__3520526_37 = makeCons(co->gc, getBinding(co, packageID, 84).name, v__3520525_37);
+Obj v__3520527_37 = makeCons(co->gc, v__3520526_37, Nil);
+Obj v__3520528_37 = makeCons(co->gc, v__3520523_37, v__3520527_37);
+Obj v__3520529_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520528_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520403_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520529_37);
 return;
 } else {
-Obj v__3520404_37 = makeCons(co->gc, v__3519849_37, Nil);
-Obj v__3520405_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3520404_37);
-coraReturn(co, v__3520405_37);
+Obj v__3520530_37 = makeCons(co->gc, v__3519961_37, Nil);
+Obj v__3520531_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520530_37);
+coraReturn(co, v__3520531_37);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519816_37);
+coraCall0(co, v__3519928_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519816_37);
+coraCall0(co, v__3519928_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519816_37);
+coraCall0(co, v__3519928_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519816_37);
+coraCall0(co, v__3519928_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520391_37= co->res;
-Obj v__3519849_37 = R[1];
-Obj v__3520392_37 = makeCons(co->gc, v__3519849_37, Nil);
-Obj v__3520393_37 = makeCons(co->gc, getBinding(co, packageID, 96).name, v__3520392_37);
-coraReturn(co, v__3520393_37);
+Obj v__3520517_37= co->res;
+Obj v__3519961_37 = R[1];
+Obj v__3520518_37 = makeCons(co->gc, v__3519961_37, Nil);
+Obj v__3520519_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520518_37);
+coraReturn(co, v__3520519_37);
 return;
 }
 }
 }
 
-static void clofun20(struct Cora* co, int label, Obj *R) {
+static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520198_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3520198_37) {
-saveCont(co, clofun20, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520328_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3520328_37) {
+saveCont(co, clofun21, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3519818_37 = makeNative(co->gc, 1, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520356_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520356_37) {
-Obj v__3520357_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520358_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520357_37);
-if (True == v__3520358_37) {
-Obj v__3520359_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520360_37 = PRIM_ISCONS(v__3520359_37);
-if (True == v__3520360_37) {
-Obj v__3520361_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520362_37 = PRIM_CAR(v__3520361_37);
-Obj v__3519847_37 = v__3520362_37;
-Obj v__3520363_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520364_37 = PRIM_CDR(v__3520363_37);
-Obj v__3520365_37 = PRIM_ISCONS(v__3520364_37);
-if (True == v__3520365_37) {
-Obj v__3520366_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520367_37 = PRIM_CDR(v__3520366_37);
-Obj v__3520368_37 = PRIM_CAR(v__3520367_37);
-Obj v__3519848_37 = v__3520368_37;
-Obj v__3520369_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520370_37 = PRIM_CDR(v__3520369_37);
-Obj v__3520371_37 = PRIM_CDR(v__3520370_37);
-Obj v__3520372_37 = PRIM_EQ(Nil, v__3520371_37);
-if (True == v__3520372_37) {
-R[1] = v__3519848_37;
-R[2] = v__3519847_37;
-saveCont(co, clofun20, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), makeNative(co->gc, 2, clofun19, 1, 0), v__3519847_37);
+Obj v__3519930_37 = makeNative(co->gc, 1, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520482_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520482_37) {
+Obj v__3520483_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520484_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520483_37);
+if (True == v__3520484_37) {
+Obj v__3520485_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520486_37 = PRIM_ISCONS(v__3520485_37);
+if (True == v__3520486_37) {
+Obj v__3520487_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520488_37 = PRIM_CAR(v__3520487_37);
+Obj v__3519959_37 = v__3520488_37;
+Obj v__3520489_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520490_37 = PRIM_CDR(v__3520489_37);
+Obj v__3520491_37 = PRIM_ISCONS(v__3520490_37);
+if (True == v__3520491_37) {
+Obj v__3520492_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520493_37 = PRIM_CDR(v__3520492_37);
+Obj v__3520494_37 = PRIM_CAR(v__3520493_37);
+Obj v__3519960_37 = v__3520494_37;
+Obj v__3520495_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520496_37 = PRIM_CDR(v__3520495_37);
+Obj v__3520497_37 = PRIM_CDR(v__3520496_37);
+Obj v__3520498_37 = PRIM_EQ(Nil, v__3520497_37);
+if (True == v__3520498_37) {
+R[1] = v__3519960_37;
+R[2] = v__3519959_37;
+saveCont(co, clofun21, 5, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), makeNative(co->gc, 2, clofun20, 1, 0), v__3519959_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3519930_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3519930_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3519930_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3519930_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519818_37);
+coraCall0(co, v__3519930_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520202_37= co->res;
-Obj v__3520203_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520204_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520203_37);
-coraReturn(co, v__3520204_37);
+Obj v__3520332_37= co->res;
+Obj v__3520333_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520334_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520333_37);
+coraReturn(co, v__3520334_37);
 return;
 }
 case 2:
 {
-Obj v__3520199_37= co->res;
-Obj v__3519817_37 = v__3520199_37;
-Obj v__3520200_37 = PRIM_ISCONS(v__3519817_37);
-if (True == v__3520200_37) {
-Obj v__3520201_37 = PRIM_CDR(v__3519817_37);
-coraReturn(co, v__3520201_37);
+Obj v__3520329_37= co->res;
+Obj v__3519929_37 = v__3520329_37;
+Obj v__3520330_37 = PRIM_ISCONS(v__3519929_37);
+if (True == v__3520330_37) {
+Obj v__3520331_37 = PRIM_CDR(v__3519929_37);
+coraReturn(co, v__3520331_37);
 return;
 } else {
-saveCont(co, clofun20, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 95)), closureRef(R[0], 0), closureRef(R[0], 2));
+saveCont(co, clofun21, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 }
 case 3:
 {
-Obj v__3520376_37= co->res;
-Obj v__3519847_37 = R[1];
-Obj v__3520377_37 = makeCons(co->gc, v__3520376_37, Nil);
-Obj v__3520378_37 = makeCons(co->gc, v__3519847_37, v__3520377_37);
-Obj v__3520379_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520378_37);
-coraReturn(co, v__3520379_37);
+Obj v__3520502_37= co->res;
+Obj v__3519959_37 = R[1];
+Obj v__3520503_37 = makeCons(co->gc, v__3520502_37, Nil);
+Obj v__3520504_37 = makeCons(co->gc, v__3519959_37, v__3520503_37);
+Obj v__3520505_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520504_37);
+coraReturn(co, v__3520505_37);
 return;
 }
 case 4:
 {
-Obj v__3520375_37= co->res;
-Obj v__3519848_37 = R[1];
-Obj v__3519847_37 = R[2];
-R[1] = v__3519847_37;
-saveCont(co, clofun20, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3520375_37, closureRef(R[0], 2), v__3519848_37);
+Obj v__3520501_37= co->res;
+Obj v__3519960_37 = R[1];
+Obj v__3519959_37 = R[2];
+R[1] = v__3519959_37;
+saveCont(co, clofun21, 3, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), v__3520501_37, closureRef(R[0], 2), v__3519960_37);
 return;
 }
 case 5:
 {
-Obj v__3520374_37= co->res;
-Obj v__3519848_37 = R[1];
-Obj v__3519847_37 = R[2];
-R[1] = v__3519848_37;
-R[2] = v__3519847_37;
-saveCont(co, clofun20, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520374_37, closureRef(R[0], 1));
+Obj v__3520500_37= co->res;
+Obj v__3519960_37 = R[1];
+Obj v__3519959_37 = R[2];
+R[1] = v__3519960_37;
+R[2] = v__3519959_37;
+saveCont(co, clofun21, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3520500_37, closureRef(R[0], 1));
 return;
 }
 }
 }
 
-static void clofun19(struct Cora* co, int label, Obj *R) {
+static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519265_37 = R[1];
-Obj v__3520373_37 = makeCons(co->gc, v__3519265_37, v__3519265_37);
-coraReturn(co, v__3520373_37);
+Obj v__3519374_37 = R[1];
+Obj v__3520499_37 = makeCons(co->gc, v__3519374_37, v__3519374_37);
+coraReturn(co, v__3520499_37);
 return;
 }
 }
 }
 
-static void clofun18(struct Cora* co, int label, Obj *R) {
+static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519819_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520324_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520324_37) {
-Obj v__3520325_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520326_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520325_37);
-if (True == v__3520326_37) {
-Obj v__3520327_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520328_37 = PRIM_ISCONS(v__3520327_37);
-if (True == v__3520328_37) {
-Obj v__3520329_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520330_37 = PRIM_CAR(v__3520329_37);
-Obj v__3520331_37 = PRIM_ISCONS(v__3520330_37);
-if (True == v__3520331_37) {
-Obj v__3520332_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520333_37 = PRIM_CAR(v__3520332_37);
-Obj v__3520334_37 = PRIM_CAR(v__3520333_37);
-Obj v__3520335_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520334_37);
-if (True == v__3520335_37) {
-Obj v__3520336_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520337_37 = PRIM_CAR(v__3520336_37);
-Obj v__3520338_37 = PRIM_CDR(v__3520337_37);
-Obj v__3519843_37 = v__3520338_37;
-Obj v__3520339_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520340_37 = PRIM_CDR(v__3520339_37);
-Obj v__3519844_37 = v__3520340_37;
-Obj v__3520341_37 = primGenSym(co);
-Obj v__3519845_37 = v__3520341_37;
-Obj v__3520342_37 = primGenSym(co);
-Obj v__3519846_37 = v__3520342_37;
-Obj v__3520343_37 = makeCons(co->gc, v__3519846_37, Nil);
-Obj v__3520344_37 = makeCons(co->gc, v__3519846_37, v__3519844_37);
-Obj v__3520345_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520344_37);
-Obj v__3520346_37 = makeCons(co->gc, v__3520345_37, Nil);
-Obj v__3520347_37 = makeCons(co->gc, v__3520343_37, v__3520346_37);
-Obj v__3520348_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520347_37);
-Obj v__3520349_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3519843_37);
-Obj v__3520350_37 = makeCons(co->gc, v__3520349_37, Nil);
-Obj v__3520351_37 = makeCons(co->gc, v__3519845_37, v__3520350_37);
-Obj v__3520352_37 = makeCons(co->gc, v__3520351_37, Nil);
-Obj v__3520353_37 = makeCons(co->gc, v__3520348_37, v__3520352_37);
-Obj v__3520354_37 = makeCons(co->gc, v__3519845_37, v__3520353_37);
-Obj v__3520355_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520354_37);
+Obj v__3519931_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520450_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520450_37) {
+Obj v__3520451_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520452_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520451_37);
+if (True == v__3520452_37) {
+Obj v__3520453_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520454_37 = PRIM_ISCONS(v__3520453_37);
+if (True == v__3520454_37) {
+Obj v__3520455_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520456_37 = PRIM_CAR(v__3520455_37);
+Obj v__3520457_37 = PRIM_ISCONS(v__3520456_37);
+if (True == v__3520457_37) {
+Obj v__3520458_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520459_37 = PRIM_CAR(v__3520458_37);
+Obj v__3520460_37 = PRIM_CAR(v__3520459_37);
+Obj v__3520461_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520460_37);
+if (True == v__3520461_37) {
+Obj v__3520462_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520463_37 = PRIM_CAR(v__3520462_37);
+Obj v__3520464_37 = PRIM_CDR(v__3520463_37);
+Obj v__3519955_37 = v__3520464_37;
+Obj v__3520465_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520466_37 = PRIM_CDR(v__3520465_37);
+Obj v__3519956_37 = v__3520466_37;
+Obj v__3520467_37 = primGenSym(co);
+Obj v__3519957_37 = v__3520467_37;
+Obj v__3520468_37 = primGenSym(co);
+Obj v__3519958_37 = v__3520468_37;
+Obj v__3520469_37 = makeCons(co->gc, v__3519958_37, Nil);
+Obj v__3520470_37 = makeCons(co->gc, v__3519958_37, v__3519956_37);
+Obj v__3520471_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520470_37);
+Obj v__3520472_37 = makeCons(co->gc, v__3520471_37, Nil);
+Obj v__3520473_37 = makeCons(co->gc, v__3520469_37, v__3520472_37);
+Obj v__3520474_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520473_37);
+Obj v__3520475_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3519955_37);
+Obj v__3520476_37 = makeCons(co->gc, v__3520475_37, Nil);
+Obj v__3520477_37 = makeCons(co->gc, v__3519957_37, v__3520476_37);
+Obj v__3520478_37 = makeCons(co->gc, v__3520477_37, Nil);
+Obj v__3520479_37 = makeCons(co->gc, v__3520474_37, v__3520478_37);
+Obj v__3520480_37 = makeCons(co->gc, v__3519957_37, v__3520479_37);
+Obj v__3520481_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520480_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520355_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520481_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519819_37);
+coraCall0(co, v__3519931_37);
 return;
 }
 }
 }
 }
 
-static void clofun17(struct Cora* co, int label, Obj *R) {
+static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519820_37 = makeNative(co->gc, 2, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520317_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520317_37) {
-Obj v__3520318_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520319_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520318_37);
-if (True == v__3520319_37) {
-Obj v__3520320_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519842_37 = v__3520320_37;
-R[1] = v__3519842_37;
-saveCont(co, clofun17, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3519932_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520443_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520443_37) {
+Obj v__3520444_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520445_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520444_37);
+if (True == v__3520445_37) {
+Obj v__3520446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519954_37 = v__3520446_37;
+R[1] = v__3519954_37;
+saveCont(co, clofun18, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519820_37);
+coraCall0(co, v__3519932_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520322_37= co->res;
-Obj v__3520323_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3520322_37);
-coraReturn(co, v__3520323_37);
+Obj v__3520448_37= co->res;
+Obj v__3520449_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520448_37);
+coraReturn(co, v__3520449_37);
 return;
 }
 case 2:
 {
-Obj v__3520321_37= co->res;
-Obj v__3519842_37 = R[1];
-saveCont(co, clofun17, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520321_37, v__3519842_37);
+Obj v__3520447_37= co->res;
+Obj v__3519954_37 = R[1];
+saveCont(co, clofun18, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520447_37, v__3519954_37);
 return;
 }
 }
 }
 
-static void clofun16(struct Cora* co, int label, Obj *R) {
+static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519821_37 = makeNative(co->gc, 4, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520295_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520295_37) {
-Obj v__3520296_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520297_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520296_37);
-if (True == v__3520297_37) {
-Obj v__3520298_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520299_37 = PRIM_ISCONS(v__3520298_37);
-if (True == v__3520299_37) {
-Obj v__3520300_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520301_37 = PRIM_CAR(v__3520300_37);
-Obj v__3519840_37 = v__3520301_37;
-Obj v__3520302_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520303_37 = PRIM_CDR(v__3520302_37);
-Obj v__3520304_37 = PRIM_ISCONS(v__3520303_37);
-if (True == v__3520304_37) {
-Obj v__3520305_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520306_37 = PRIM_CDR(v__3520305_37);
-Obj v__3520307_37 = PRIM_CAR(v__3520306_37);
-Obj v__3519841_37 = v__3520307_37;
-Obj v__3520308_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520309_37 = PRIM_CDR(v__3520308_37);
-Obj v__3520310_37 = PRIM_CDR(v__3520309_37);
-Obj v__3520311_37 = PRIM_EQ(Nil, v__3520310_37);
-if (True == v__3520311_37) {
-R[1] = v__3519841_37;
-saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519840_37);
+Obj v__3519933_37 = makeNative(co->gc, 4, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520421_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520421_37) {
+Obj v__3520422_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520423_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520422_37);
+if (True == v__3520423_37) {
+Obj v__3520424_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520425_37 = PRIM_ISCONS(v__3520424_37);
+if (True == v__3520425_37) {
+Obj v__3520426_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520427_37 = PRIM_CAR(v__3520426_37);
+Obj v__3519952_37 = v__3520427_37;
+Obj v__3520428_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520429_37 = PRIM_CDR(v__3520428_37);
+Obj v__3520430_37 = PRIM_ISCONS(v__3520429_37);
+if (True == v__3520430_37) {
+Obj v__3520431_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520432_37 = PRIM_CDR(v__3520431_37);
+Obj v__3520433_37 = PRIM_CAR(v__3520432_37);
+Obj v__3519953_37 = v__3520433_37;
+Obj v__3520434_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520435_37 = PRIM_CDR(v__3520434_37);
+Obj v__3520436_37 = PRIM_CDR(v__3520435_37);
+Obj v__3520437_37 = PRIM_EQ(Nil, v__3520436_37);
+if (True == v__3520437_37) {
+R[1] = v__3519953_37;
+saveCont(co, clofun17, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519952_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519821_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519821_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519821_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519821_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519821_37);
+coraCall0(co, v__3519933_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520313_37= co->res;
-Obj v__3520312_37 = R[1];
-Obj v__3520314_37 = makeCons(co->gc, v__3520313_37, Nil);
-Obj v__3520315_37 = makeCons(co->gc, v__3520312_37, v__3520314_37);
-Obj v__3520316_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520315_37);
-coraReturn(co, v__3520316_37);
+Obj v__3520439_37= co->res;
+Obj v__3520438_37 = R[1];
+Obj v__3520440_37 = makeCons(co->gc, v__3520439_37, Nil);
+Obj v__3520441_37 = makeCons(co->gc, v__3520438_37, v__3520440_37);
+Obj v__3520442_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520441_37);
+coraReturn(co, v__3520442_37);
 return;
 }
 case 2:
 {
-Obj v__3520312_37= co->res;
-Obj v__3519841_37 = R[1];
-R[1] = v__3520312_37;
-saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519841_37);
+Obj v__3520438_37= co->res;
+Obj v__3519953_37 = R[1];
+R[1] = v__3520438_37;
+saveCont(co, clofun17, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519953_37);
 return;
 }
 }
 }
 
-static void clofun15(struct Cora* co, int label, Obj *R) {
+static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519822_37 = makeNative(co->gc, 1, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520260_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520260_37) {
-Obj v__3520261_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520262_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520261_37);
-if (True == v__3520262_37) {
-Obj v__3520263_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520264_37 = PRIM_ISCONS(v__3520263_37);
-if (True == v__3520264_37) {
-Obj v__3520265_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520266_37 = PRIM_CAR(v__3520265_37);
-Obj v__3519836_37 = v__3520266_37;
-Obj v__3520267_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520268_37 = PRIM_CDR(v__3520267_37);
-Obj v__3520269_37 = PRIM_ISCONS(v__3520268_37);
-if (True == v__3520269_37) {
-Obj v__3520270_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520271_37 = PRIM_CDR(v__3520270_37);
-Obj v__3520272_37 = PRIM_CAR(v__3520271_37);
-Obj v__3519837_37 = v__3520272_37;
-Obj v__3520273_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520274_37 = PRIM_CDR(v__3520273_37);
-Obj v__3520275_37 = PRIM_CDR(v__3520274_37);
-Obj v__3520276_37 = PRIM_ISCONS(v__3520275_37);
-if (True == v__3520276_37) {
-Obj v__3520277_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520278_37 = PRIM_CDR(v__3520277_37);
-Obj v__3520279_37 = PRIM_CDR(v__3520278_37);
-Obj v__3520280_37 = PRIM_CAR(v__3520279_37);
-Obj v__3519838_37 = v__3520280_37;
-Obj v__3520281_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520282_37 = PRIM_CDR(v__3520281_37);
-Obj v__3520283_37 = PRIM_CDR(v__3520282_37);
-Obj v__3520284_37 = PRIM_CDR(v__3520283_37);
-Obj v__3520285_37 = PRIM_EQ(Nil, v__3520284_37);
-if (True == v__3520285_37) {
-Obj v__3520286_37 = primGenSym(co);
-Obj v__3519839_37 = v__3520286_37;
-R[1] = v__3519836_37;
-R[2] = v__3519838_37;
-R[3] = v__3519839_37;
-saveCont(co, clofun15, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519837_37);
+Obj v__3519934_37 = makeNative(co->gc, 1, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520386_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520386_37) {
+Obj v__3520387_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520388_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520387_37);
+if (True == v__3520388_37) {
+Obj v__3520389_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520390_37 = PRIM_ISCONS(v__3520389_37);
+if (True == v__3520390_37) {
+Obj v__3520391_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520392_37 = PRIM_CAR(v__3520391_37);
+Obj v__3519948_37 = v__3520392_37;
+Obj v__3520393_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520394_37 = PRIM_CDR(v__3520393_37);
+Obj v__3520395_37 = PRIM_ISCONS(v__3520394_37);
+if (True == v__3520395_37) {
+Obj v__3520396_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520397_37 = PRIM_CDR(v__3520396_37);
+Obj v__3520398_37 = PRIM_CAR(v__3520397_37);
+Obj v__3519949_37 = v__3520398_37;
+Obj v__3520399_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520400_37 = PRIM_CDR(v__3520399_37);
+Obj v__3520401_37 = PRIM_CDR(v__3520400_37);
+Obj v__3520402_37 = PRIM_ISCONS(v__3520401_37);
+if (True == v__3520402_37) {
+Obj v__3520403_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520404_37 = PRIM_CDR(v__3520403_37);
+Obj v__3520405_37 = PRIM_CDR(v__3520404_37);
+Obj v__3520406_37 = PRIM_CAR(v__3520405_37);
+Obj v__3519950_37 = v__3520406_37;
+Obj v__3520407_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520408_37 = PRIM_CDR(v__3520407_37);
+Obj v__3520409_37 = PRIM_CDR(v__3520408_37);
+Obj v__3520410_37 = PRIM_CDR(v__3520409_37);
+Obj v__3520411_37 = PRIM_EQ(Nil, v__3520410_37);
+if (True == v__3520411_37) {
+Obj v__3520412_37 = primGenSym(co);
+Obj v__3519951_37 = v__3520412_37;
+R[1] = v__3519948_37;
+R[2] = v__3519950_37;
+R[3] = v__3519951_37;
+saveCont(co, clofun16, 2, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519949_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519822_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519822_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519822_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519822_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519822_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519822_37);
+coraCall0(co, v__3519934_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520290_37= co->res;
-Obj v__3520287_37 = R[1];
-Obj v__3519839_37 = R[2];
-Obj v__3520291_37 = makeCons(co->gc, v__3520290_37, Nil);
-Obj v__3520292_37 = makeCons(co->gc, v__3520287_37, v__3520291_37);
-Obj v__3520293_37 = makeCons(co->gc, v__3519839_37, v__3520292_37);
-Obj v__3520294_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520293_37);
-coraReturn(co, v__3520294_37);
+Obj v__3520416_37= co->res;
+Obj v__3520413_37 = R[1];
+Obj v__3519951_37 = R[2];
+Obj v__3520417_37 = makeCons(co->gc, v__3520416_37, Nil);
+Obj v__3520418_37 = makeCons(co->gc, v__3520413_37, v__3520417_37);
+Obj v__3520419_37 = makeCons(co->gc, v__3519951_37, v__3520418_37);
+Obj v__3520420_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520419_37);
+coraReturn(co, v__3520420_37);
 return;
 }
 case 2:
 {
-Obj v__3520287_37= co->res;
-Obj v__3519836_37 = R[1];
-Obj v__3519838_37 = R[2];
-Obj v__3519839_37 = R[3];
-Obj v__3520288_37 = makeCons(co->gc, v__3519836_37, v__3519839_37);
-Obj v__3520289_37 = makeCons(co->gc, v__3520288_37, closureRef(R[0], 1));
-R[1] = v__3520287_37;
-R[2] = v__3519839_37;
-saveCont(co, clofun15, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), v__3520289_37, closureRef(R[0], 2), v__3519838_37);
+Obj v__3520413_37= co->res;
+Obj v__3519948_37 = R[1];
+Obj v__3519950_37 = R[2];
+Obj v__3519951_37 = R[3];
+Obj v__3520414_37 = makeCons(co->gc, v__3519948_37, v__3519951_37);
+Obj v__3520415_37 = makeCons(co->gc, v__3520414_37, closureRef(R[0], 1));
+R[1] = v__3520413_37;
+R[2] = v__3519951_37;
+saveCont(co, clofun16, 1, R);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), v__3520415_37, closureRef(R[0], 2), v__3519950_37);
 return;
 }
 }
 }
 
-static void clofun14(struct Cora* co, int label, Obj *R) {
+static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519823_37 = makeNative(co->gc, 3, clofun13, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
-Obj v__3520228_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520228_37) {
-Obj v__3520229_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520230_37 = PRIM_ISCONS(v__3520229_37);
-if (True == v__3520230_37) {
-Obj v__3520231_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520232_37 = PRIM_CAR(v__3520231_37);
-Obj v__3520233_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520232_37);
-if (True == v__3520233_37) {
-Obj v__3520234_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520235_37 = PRIM_CDR(v__3520234_37);
-Obj v__3519833_37 = v__3520235_37;
-Obj v__3520236_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520237_37 = PRIM_ISCONS(v__3520236_37);
-if (True == v__3520237_37) {
-Obj v__3520238_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520239_37 = PRIM_CAR(v__3520238_37);
-Obj v__3520240_37 = PRIM_ISCONS(v__3520239_37);
-if (True == v__3520240_37) {
-Obj v__3520241_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520242_37 = PRIM_CAR(v__3520241_37);
-Obj v__3520243_37 = PRIM_CAR(v__3520242_37);
-Obj v__3520244_37 = PRIM_EQ(getBinding(co, packageID, 88).name, v__3520243_37);
-if (True == v__3520244_37) {
-Obj v__3520245_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520246_37 = PRIM_CAR(v__3520245_37);
-Obj v__3520247_37 = PRIM_CDR(v__3520246_37);
-Obj v__3519834_37 = v__3520247_37;
-Obj v__3520248_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520249_37 = PRIM_CDR(v__3520248_37);
-Obj v__3520250_37 = PRIM_EQ(Nil, v__3520249_37);
-if (True == v__3520250_37) {
-Obj v__3520251_37 = primGenSym(co);
-Obj v__3519835_37 = v__3520251_37;
-Obj v__3520252_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3519833_37);
-Obj v__3520253_37 = makeCons(co->gc, getBinding(co, packageID, 88).name, v__3519834_37);
-Obj v__3520254_37 = makeCons(co->gc, v__3520253_37, Nil);
-Obj v__3520255_37 = makeCons(co->gc, v__3519835_37, v__3520254_37);
-Obj v__3520256_37 = makeCons(co->gc, v__3520255_37, Nil);
-Obj v__3520257_37 = makeCons(co->gc, v__3520252_37, v__3520256_37);
-Obj v__3520258_37 = makeCons(co->gc, v__3519835_37, v__3520257_37);
-Obj v__3520259_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520258_37);
-co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520259_37);
+Obj v__3519935_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj v__3520354_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520354_37) {
+Obj v__3520355_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520356_37 = PRIM_ISCONS(v__3520355_37);
+if (True == v__3520356_37) {
+Obj v__3520357_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520358_37 = PRIM_CAR(v__3520357_37);
+Obj v__3520359_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520358_37);
+if (True == v__3520359_37) {
+Obj v__3520360_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520361_37 = PRIM_CDR(v__3520360_37);
+Obj v__3519945_37 = v__3520361_37;
+Obj v__3520362_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520363_37 = PRIM_ISCONS(v__3520362_37);
+if (True == v__3520363_37) {
+Obj v__3520364_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520365_37 = PRIM_CAR(v__3520364_37);
+Obj v__3520366_37 = PRIM_ISCONS(v__3520365_37);
+if (True == v__3520366_37) {
+Obj v__3520367_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520368_37 = PRIM_CAR(v__3520367_37);
+Obj v__3520369_37 = PRIM_CAR(v__3520368_37);
+Obj v__3520370_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520369_37);
+if (True == v__3520370_37) {
+Obj v__3520371_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520372_37 = PRIM_CAR(v__3520371_37);
+Obj v__3520373_37 = PRIM_CDR(v__3520372_37);
+Obj v__3519946_37 = v__3520373_37;
+Obj v__3520374_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520375_37 = PRIM_CDR(v__3520374_37);
+Obj v__3520376_37 = PRIM_EQ(Nil, v__3520375_37);
+if (True == v__3520376_37) {
+Obj v__3520377_37 = primGenSym(co);
+Obj v__3519947_37 = v__3520377_37;
+Obj v__3520378_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3519945_37);
+Obj v__3520379_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3519946_37);
+Obj v__3520380_37 = makeCons(co->gc, v__3520379_37, Nil);
+Obj v__3520381_37 = makeCons(co->gc, v__3519947_37, v__3520380_37);
+Obj v__3520382_37 = makeCons(co->gc, v__3520381_37, Nil);
+Obj v__3520383_37 = makeCons(co->gc, v__3520378_37, v__3520382_37);
+Obj v__3520384_37 = makeCons(co->gc, v__3519947_37, v__3520383_37);
+Obj v__3520385_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520384_37);
+co->ctx.sp = R;
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520385_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519823_37);
+coraCall0(co, v__3519935_37);
 return;
 }
 }
 }
 }
 
-static void clofun13(struct Cora* co, int label, Obj *R) {
+static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519824_37 = makeNative(co->gc, 1, clofun11, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3520206_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520206_37) {
-Obj v__3520207_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519825_37 = v__3520207_37;
-Obj v__3520208_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519826_37 = v__3520208_37;
-Obj v__3519829_37 = makeNative(co->gc, 2, clofun12, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3519825_37, v__3519826_37, v__3519824_37);
-R[1] = v__3519825_37;
-R[2] = v__3519829_37;
-saveCont(co, clofun13, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519825_37);
+Obj v__3519936_37 = makeNative(co->gc, 1, clofun12, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3520336_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520336_37) {
+Obj v__3520337_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519937_37 = v__3520337_37;
+Obj v__3520338_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519938_37 = v__3520338_37;
+Obj v__3519941_37 = makeNative(co->gc, 2, clofun13, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3519937_37, v__3519938_37, v__3519936_37);
+R[1] = v__3519937_37;
+R[2] = v__3519941_37;
+saveCont(co, clofun14, 3, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3519937_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519824_37);
+coraCall0(co, v__3519936_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520227_37= co->res;
-Obj v__3519829_37 = R[1];
-if (True == v__3520227_37) {
+Obj v__3520353_37= co->res;
+Obj v__3519941_37 = R[1];
+if (True == v__3520353_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519829_37, True);
+coraCall1(co, v__3519941_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519829_37, False);
+coraCall1(co, v__3519941_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520226_37= co->res;
-Obj v__3519829_37 = R[1];
-R[1] = v__3519829_37;
-saveCont(co, clofun13, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520226_37);
+Obj v__3520352_37= co->res;
+Obj v__3519941_37 = R[1];
+R[1] = v__3519941_37;
+saveCont(co, clofun14, 1, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520352_37);
 return;
 }
 case 3:
 {
-Obj v__3520225_37= co->res;
-Obj v__3519825_37 = R[1];
-Obj v__3519829_37 = R[2];
-if (True == v__3520225_37) {
-R[1] = v__3519829_37;
-saveCont(co, clofun13, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519825_37, closureRef(R[0], 2));
+Obj v__3520351_37= co->res;
+Obj v__3519937_37 = R[1];
+Obj v__3519941_37 = R[2];
+if (True == v__3520351_37) {
+R[1] = v__3519941_37;
+saveCont(co, clofun14, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519937_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519829_37, False);
+coraCall1(co, v__3519941_37, False);
 return;
 }
 }
 }
 }
 
-static void clofun12(struct Cora* co, int label, Obj *R) {
+static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519828_37 = R[1];
-if (True == v__3519828_37) {
-saveCont(co, clofun12, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
+Obj v__3519940_37 = R[1];
+if (True == v__3519940_37) {
+saveCont(co, clofun13, 6, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -8504,94 +8507,163 @@ return;
 }
 case 1:
 {
-Obj v__3520215_37= co->res;
-Obj v__3520213_37 = R[1];
-Obj v__3520216_37 = makeCons(co->gc, v__3520213_37, v__3520215_37);
-coraReturn(co, v__3520216_37);
+Obj v__3520345_37= co->res;
+Obj v__3520343_37 = R[1];
+Obj v__3520346_37 = makeCons(co->gc, v__3520343_37, v__3520345_37);
+coraReturn(co, v__3520346_37);
 return;
 }
 case 2:
 {
-Obj v__3520214_37= co->res;
-Obj v__3520213_37 = R[1];
-R[1] = v__3520213_37;
-saveCont(co, clofun12, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520214_37, closureRef(R[0], 3));
+Obj v__3520344_37= co->res;
+Obj v__3520343_37 = R[1];
+R[1] = v__3520343_37;
+saveCont(co, clofun13, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520344_37, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v__3520221_37= co->res;
-Obj v__3519832_37 = R[1];
-Obj v__3520222_37 = makeCons(co->gc, v__3520221_37, Nil);
-Obj v__3520223_37 = makeCons(co->gc, v__3519832_37, v__3520222_37);
-Obj v__3520224_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520223_37);
+Obj v__3520350_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1), v__3520224_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), v__3520350_37);
 return;
 }
 case 4:
 {
-Obj v__3520219_37= co->res;
-Obj v__3519832_37 = v__3520219_37;
-Obj v__3520220_37 = makeCons(co->gc, closureRef(R[0], 2), closureRef(R[0], 3));
-R[1] = v__3519832_37;
-saveCont(co, clofun12, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520220_37, v__3519832_37);
+Obj v__3520349_37= co->res;
+Obj v__3519944_37 = v__3520349_37;
+saveCont(co, clofun13, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 2), closureRef(R[0], 3), Nil, v__3519944_37);
 return;
 }
 case 5:
 {
-Obj v__3520210_37= co->res;
-Obj v__3519830_37 = R[1];
-Obj v__3519831_37 = v__3520210_37;
-Obj v__3520211_37 = PRIM_EQ(v__3519830_37, v__3519831_37);
-if (True == v__3520211_37) {
-Obj v__3520212_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3520213_37 = makeCons(co->gc, getBinding(co, packageID, 91).name, v__3520212_37);
-R[1] = v__3520213_37;
-saveCont(co, clofun12, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520340_37= co->res;
+Obj v__3519942_37 = R[1];
+Obj v__3519943_37 = v__3520340_37;
+Obj v__3520341_37 = PRIM_EQ(v__3519942_37, v__3519943_37);
+if (True == v__3520341_37) {
+Obj v__3520342_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3520343_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520342_37);
+R[1] = v__3520343_37;
+saveCont(co, clofun13, 2, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3520217_37 = PRIM_GT(v__3519830_37, v__3519831_37);
-if (True == v__3520217_37) {
-Obj v__3520218_37 = PRIM_SUB(v__3519830_37, v__3519831_37);
-saveCont(co, clofun12, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3520218_37, Nil);
+Obj v__3520347_37 = PRIM_GT(v__3519942_37, v__3519943_37);
+if (True == v__3520347_37) {
+Obj v__3520348_37 = PRIM_SUB(v__3519942_37, v__3519943_37);
+saveCont(co, clofun13, 4, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v__3520348_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "primitive call mismatch"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "primitive call mismatch"));
 return;
 }
 }
 }
 case 6:
 {
-Obj v__3520209_37= co->res;
-Obj v__3519830_37 = v__3520209_37;
-R[1] = v__3519830_37;
-saveCont(co, clofun12, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), closureRef(R[0], 3));
+Obj v__3520339_37= co->res;
+Obj v__3519942_37 = v__3520339_37;
+R[1] = v__3519942_37;
+saveCont(co, clofun13, 5, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
 }
 }
 }
 
-static void clofun11(struct Cora* co, int label, Obj *R) {
+static void clofun12(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 97)), closureRef(R[0], 0), closureRef(R[0], 1));
+saveCont(co, clofun12, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 }
 case 1:
 {
-Obj v__3520205_37= co->res;
+Obj v__3520335_37= co->res;
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520335_37, closureRef(R[0], 2));
+return;
+}
+}
+}
+
+static void clofun11(struct Cora* co, int label, Obj *R) {
+ switch (label) {
+case 0:
+{
+Obj v__3519271_37 = R[1];
+Obj v__3519272_37 = R[2];
+Obj v__3519273_37 = R[3];
+Obj v__3519274_37 = R[4];
+Obj v__3520308_37 = PRIM_EQ(Nil, v__3519272_37);
+if (True == v__3520308_37) {
+R[1] = v__3519271_37;
+R[2] = v__3519274_37;
+saveCont(co, clofun11, 2, R);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519273_37);
+return;
+} else {
+Obj v__3520315_37 = PRIM_ISCONS(v__3519272_37);
+if (True == v__3520315_37) {
+Obj v__3520316_37 = PRIM_CAR(v__3519272_37);
+Obj v__3519922_37 = v__3520316_37;
+Obj v__3520317_37 = PRIM_CDR(v__3519272_37);
+Obj v__3519923_37 = v__3520317_37;
+Obj v__3520318_37 = primGenSym(co);
+Obj v__3519924_37 = v__3520318_37;
+Obj v__3520319_37 = makeCons(co->gc, v__3519924_37, v__3519273_37);
+R[1] = v__3519922_37;
+R[2] = v__3519924_37;
+saveCont(co, clofun11, 3, R);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 98)), v__3519271_37, v__3519923_37, v__3520319_37, v__3519274_37);
+return;
+} else {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), v__3520205_37, closureRef(R[0], 2));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
+return;
+}
+}
+}
+case 1:
+{
+Obj v__3520310_37= co->res;
+Obj v__3519271_37 = R[1];
+Obj v__3519274_37 = R[2];
+Obj v__3520311_37 = makeCons(co->gc, v__3519271_37, v__3520310_37);
+Obj v__3520312_37 = makeCons(co->gc, v__3520311_37, Nil);
+Obj v__3520313_37 = makeCons(co->gc, v__3519274_37, v__3520312_37);
+Obj v__3520314_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520313_37);
+coraReturn(co, v__3520314_37);
+return;
+}
+case 2:
+{
+Obj v__3520309_37= co->res;
+Obj v__3519271_37 = R[1];
+Obj v__3519274_37 = R[2];
+R[1] = v__3519271_37;
+R[2] = v__3519274_37;
+saveCont(co, clofun11, 1, R);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3520309_37, v__3519274_37);
+return;
+}
+case 3:
+{
+Obj v__3520320_37= co->res;
+Obj v__3519922_37 = R[1];
+Obj v__3519924_37 = R[2];
+Obj v__3520321_37 = makeCons(co->gc, v__3520320_37, Nil);
+Obj v__3520322_37 = makeCons(co->gc, v__3519922_37, v__3520321_37);
+Obj v__3520323_37 = makeCons(co->gc, v__3519924_37, v__3520322_37);
+Obj v__3520324_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520323_37);
+coraReturn(co, v__3520324_37);
 return;
 }
 }
@@ -8601,18 +8673,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519170_37 = R[1];
-Obj v__3519171_37 = R[2];
-Obj v__3520191_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519170_37);
-if (True == v__3520191_37) {
-coraReturn(co, v__3519171_37);
+Obj v__3519269_37 = R[1];
+Obj v__3519270_37 = R[2];
+Obj v__3520303_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519269_37);
+if (True == v__3520303_37) {
+coraReturn(co, v__3519270_37);
 return;
 } else {
-Obj v__3520192_37 = PRIM_SUB(v__3519170_37, MAKE_NUMBER(1));
-Obj v__3520193_37 = primGenSym(co);
-Obj v__3520194_37 = makeCons(co->gc, v__3520193_37, v__3519171_37);
+Obj v__3520304_37 = PRIM_SUB(v__3519269_37, MAKE_NUMBER(1));
+Obj v__3520305_37 = primGenSym(co);
+Obj v__3520306_37 = makeCons(co->gc, v__3520305_37, v__3519270_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3520192_37, v__3520194_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v__3520304_37, v__3520306_37);
 return;
 }
 }
@@ -8623,31 +8695,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519168_37 = R[1];
+Obj v__3519267_37 = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519168_37, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519267_37, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v__3520189_37= co->res;
-Obj v__3519812_37 = R[1];
-if (True == v__3520189_37) {
+Obj v__3520301_37= co->res;
+Obj v__3519921_37 = R[1];
+if (True == v__3520301_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 99)), v__3519812_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519921_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520188_37= co->res;
-Obj v__3519812_37 = v__3520188_37;
-R[1] = v__3519812_37;
+Obj v__3520300_37= co->res;
+Obj v__3519921_37 = v__3520300_37;
+R[1] = v__3519921_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519812_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519921_37);
 return;
 }
 }
@@ -8657,31 +8729,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519166_37 = R[1];
+Obj v__3519265_37 = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519166_37, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519265_37, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v__3520186_37= co->res;
-Obj v__3519811_37 = R[1];
-if (True == v__3520186_37) {
+Obj v__3520298_37= co->res;
+Obj v__3519920_37 = R[1];
+if (True == v__3520298_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3519811_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519920_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520185_37= co->res;
-Obj v__3519811_37 = v__3520185_37;
-R[1] = v__3519811_37;
+Obj v__3520297_37= co->res;
+Obj v__3519920_37 = v__3520297_37;
+R[1] = v__3519920_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3519811_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519920_37);
 return;
 }
 }
@@ -8691,23 +8763,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519165_37 = R[1];
+Obj v__3519264_37 = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), v__3519165_37, globalRef(co, getBinding(co, packageID, 122)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519264_37, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v__3520182_37= co->res;
-Obj v__3520183_37 = primNot(v__3520182_37);
-coraReturn(co, v__3520183_37);
+Obj v__3520294_37= co->res;
+Obj v__3520295_37 = primNot(v__3520294_37);
+coraReturn(co, v__3520295_37);
 return;
 }
 case 2:
 {
-Obj v__3520181_37= co->res;
+Obj v__3520293_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520181_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520293_37);
 return;
 }
 }
@@ -8717,40 +8789,40 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519159_37 = R[1];
-Obj v__3519160_37 = R[2];
-Obj v__3520105_37 = PRIM_EQ(Nil, v__3519160_37);
-if (True == v__3520105_37) {
+Obj v__3519258_37 = R[1];
+Obj v__3519259_37 = R[2];
+Obj v__3520217_37 = PRIM_EQ(Nil, v__3519259_37);
+if (True == v__3520217_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3520106_37 = PRIM_ISCONS(v__3519160_37);
-if (True == v__3520106_37) {
-Obj v__3520107_37 = PRIM_CAR(v__3519160_37);
-Obj v__3519809_37 = v__3520107_37;
-Obj v__3520108_37 = PRIM_CDR(v__3519160_37);
-Obj v__3519810_37 = v__3520108_37;
-R[1] = v__3519159_37;
-R[2] = v__3519810_37;
+Obj v__3520218_37 = PRIM_ISCONS(v__3519259_37);
+if (True == v__3520218_37) {
+Obj v__3520219_37 = PRIM_CAR(v__3519259_37);
+Obj v__3519918_37 = v__3520219_37;
+Obj v__3520220_37 = PRIM_CDR(v__3519259_37);
+Obj v__3519919_37 = v__3520220_37;
+R[1] = v__3519258_37;
+R[2] = v__3519919_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519159_37, v__3519809_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3519258_37, v__3519918_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520109_37= co->res;
-Obj v__3519159_37 = R[1];
-Obj v__3519810_37 = R[2];
-Obj v__3520110_37 = PRIM_LT(v__3520109_37, MAKE_NUMBER(0));
-if (True == v__3520110_37) {
+Obj v__3520221_37= co->res;
+Obj v__3519258_37 = R[1];
+Obj v__3519919_37 = R[2];
+Obj v__3520222_37 = PRIM_LT(v__3520221_37, MAKE_NUMBER(0));
+if (True == v__3520222_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 123)), v__3519159_37, v__3519810_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519258_37, v__3519919_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8764,10 +8836,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519157_37 = R[1];
-Obj v__3519158_37 = R[2];
+Obj v__3519256_37 = R[1];
+Obj v__3519257_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), MAKE_NUMBER(0), v__3519157_37, v__3519158_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), MAKE_NUMBER(0), v__3519256_37, v__3519257_37);
 return;
 }
 }
@@ -8777,32 +8849,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519148_37 = R[1];
-Obj v__3519149_37 = R[2];
-Obj v__3519150_37 = R[3];
-Obj v__3520094_37 = PRIM_EQ(Nil, v__3519150_37);
-if (True == v__3520094_37) {
+Obj v__3519247_37 = R[1];
+Obj v__3519248_37 = R[2];
+Obj v__3519249_37 = R[3];
+Obj v__3520206_37 = PRIM_EQ(Nil, v__3519249_37);
+if (True == v__3520206_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3519806_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519150_37, v__3519148_37, v__3519149_37);
-Obj v__3520099_37 = PRIM_ISCONS(v__3519150_37);
-if (True == v__3520099_37) {
-Obj v__3520100_37 = PRIM_CAR(v__3519150_37);
-Obj v__3519808_37 = v__3520100_37;
-Obj v__3520101_37 = PRIM_CDR(v__3519150_37);
-Obj v__3520102_37 = PRIM_EQ(v__3519149_37, v__3519808_37);
-if (True == v__3520102_37) {
-coraReturn(co, v__3519148_37);
+Obj v__3519915_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519249_37, v__3519247_37, v__3519248_37);
+Obj v__3520211_37 = PRIM_ISCONS(v__3519249_37);
+if (True == v__3520211_37) {
+Obj v__3520212_37 = PRIM_CAR(v__3519249_37);
+Obj v__3519917_37 = v__3520212_37;
+Obj v__3520213_37 = PRIM_CDR(v__3519249_37);
+Obj v__3520214_37 = PRIM_EQ(v__3519248_37, v__3519917_37);
+if (True == v__3520214_37) {
+coraReturn(co, v__3519247_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519806_37);
+coraCall0(co, v__3519915_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519806_37);
+coraCall0(co, v__3519915_37);
 return;
 }
 }
@@ -8814,18 +8886,18 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520095_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520095_37) {
-Obj v__3520096_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520097_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519807_37 = v__3520097_37;
-Obj v__3520098_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3520207_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520207_37) {
+Obj v__3520208_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520209_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519916_37 = v__3520209_37;
+Obj v__3520210_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 125)), v__3520098_37, closureRef(R[0], 2), v__3519807_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3520210_37, closureRef(R[0], 2), v__3519916_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
@@ -8836,39 +8908,39 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519141_37 = R[1];
-Obj v__3519142_37 = R[2];
-Obj v__3519143_37 = R[3];
-Obj v__3520088_37 = PRIM_EQ(Nil, v__3519143_37);
-if (True == v__3520088_37) {
-coraReturn(co, v__3519142_37);
+Obj v__3519240_37 = R[1];
+Obj v__3519241_37 = R[2];
+Obj v__3519242_37 = R[3];
+Obj v__3520200_37 = PRIM_EQ(Nil, v__3519242_37);
+if (True == v__3520200_37) {
+coraReturn(co, v__3519241_37);
 return;
 } else {
-Obj v__3520089_37 = PRIM_ISCONS(v__3519143_37);
-if (True == v__3520089_37) {
-Obj v__3520090_37 = PRIM_CAR(v__3519143_37);
-Obj v__3519804_37 = v__3520090_37;
-Obj v__3520091_37 = PRIM_CDR(v__3519143_37);
-Obj v__3519805_37 = v__3520091_37;
-R[1] = v__3519141_37;
-R[2] = v__3519805_37;
+Obj v__3520201_37 = PRIM_ISCONS(v__3519242_37);
+if (True == v__3520201_37) {
+Obj v__3520202_37 = PRIM_CAR(v__3519242_37);
+Obj v__3519913_37 = v__3520202_37;
+Obj v__3520203_37 = PRIM_CDR(v__3519242_37);
+Obj v__3519914_37 = v__3520203_37;
+R[1] = v__3519240_37;
+R[2] = v__3519914_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3519141_37, v__3519142_37, v__3519804_37);
+coraCall2(co, v__3519240_37, v__3519241_37, v__3519913_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520092_37= co->res;
-Obj v__3519141_37 = R[1];
-Obj v__3519805_37 = R[2];
+Obj v__3520204_37= co->res;
+Obj v__3519240_37 = R[1];
+Obj v__3519914_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3519141_37, v__3520092_37, v__3519805_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v__3519240_37, v__3520204_37, v__3519914_37);
 return;
 }
 }
@@ -8878,44 +8950,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519131_37 = R[1];
-Obj v__3519132_37 = R[2];
-Obj v__3520073_37 = PRIM_EQ(Nil, v__3519132_37);
-if (True == v__3520073_37) {
+Obj v__3519230_37 = R[1];
+Obj v__3519231_37 = R[2];
+Obj v__3520185_37 = PRIM_EQ(Nil, v__3519231_37);
+if (True == v__3520185_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519800_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3519132_37, v__3519131_37);
-Obj v__3520077_37 = PRIM_ISCONS(v__3519132_37);
-if (True == v__3520077_37) {
-Obj v__3520078_37 = PRIM_CAR(v__3519132_37);
-Obj v__3520079_37 = PRIM_ISCONS(v__3520078_37);
-if (True == v__3520079_37) {
-Obj v__3520080_37 = PRIM_CAR(v__3519132_37);
-Obj v__3520081_37 = PRIM_CAR(v__3520080_37);
-Obj v__3519802_37 = v__3520081_37;
-Obj v__3520082_37 = PRIM_CAR(v__3519132_37);
-Obj v__3520083_37 = PRIM_CDR(v__3520082_37);
-Obj v__3519803_37 = v__3520083_37;
-Obj v__3520084_37 = PRIM_CDR(v__3519132_37);
-Obj v__3520085_37 = PRIM_EQ(v__3519131_37, v__3519802_37);
-if (True == v__3520085_37) {
-Obj v__3520086_37 = makeCons(co->gc, v__3519802_37, v__3519803_37);
-coraReturn(co, v__3520086_37);
+Obj v__3519909_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3519231_37, v__3519230_37);
+Obj v__3520189_37 = PRIM_ISCONS(v__3519231_37);
+if (True == v__3520189_37) {
+Obj v__3520190_37 = PRIM_CAR(v__3519231_37);
+Obj v__3520191_37 = PRIM_ISCONS(v__3520190_37);
+if (True == v__3520191_37) {
+Obj v__3520192_37 = PRIM_CAR(v__3519231_37);
+Obj v__3520193_37 = PRIM_CAR(v__3520192_37);
+Obj v__3519911_37 = v__3520193_37;
+Obj v__3520194_37 = PRIM_CAR(v__3519231_37);
+Obj v__3520195_37 = PRIM_CDR(v__3520194_37);
+Obj v__3519912_37 = v__3520195_37;
+Obj v__3520196_37 = PRIM_CDR(v__3519231_37);
+Obj v__3520197_37 = PRIM_EQ(v__3519230_37, v__3519911_37);
+if (True == v__3520197_37) {
+Obj v__3520198_37 = makeCons(co->gc, v__3519911_37, v__3519912_37);
+coraReturn(co, v__3520198_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519800_37);
+coraCall0(co, v__3519909_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519800_37);
+coraCall0(co, v__3519909_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519800_37);
+coraCall0(co, v__3519909_37);
 return;
 }
 }
@@ -8927,17 +8999,17 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520074_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520074_37) {
-Obj v__3520075_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520076_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519801_37 = v__3520076_37;
+Obj v__3520186_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520186_37) {
+Obj v__3520187_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520188_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519910_37 = v__3520188_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 128)), closureRef(R[0], 1), v__3519801_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), v__3519910_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 127)), makeCString(co->gc, "no match-help found!"));
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "no match-help found!"));
 return;
 }
 }
diff --git a/lib/toc.cora b/lib/toc.cora
index 37458a4..01a5d7b 100644
--- a/lib/toc.cora
+++ b/lib/toc.cora
@@ -51,6 +51,12 @@
 	0 res => res
 	n res => (temp-list (- n 1) (cons (gensym) res)))
 
+  ;; the arguments are evaluated when the function is made, not when it is called
+  (func partial-apply
+	op [] vars tmp => ['lambda tmp [op . (append (reverse vars) tmp)]]
+	op [arg . more] vars tmp => (let v (gensym)
+				      ['let v arg (partial-apply op more [v . vars] tmp)]))
+
   (func parse
 	_ globals x => ['%const x] where (or (number? x) (string? x) (boolean? x) (null? x))
 	env globals ['quote x] => (cond
@@ -85,9 +91,9 @@
 					  ((= required provided)  [['%builtin op] . (map (parse env globals) args)])
 					  ((> required provided)
 					   ;; rewrite partial apply of primitives
-					   ;; (+ x) => (lambda (tmp) (+ x tmp))
+					   ;; (+ (f x)) => (let v (f x) (lambda (tmp) (+ v tmp)))
 					   (let tmp (temp-list (- required provided) ())
-						(parse env globals ['lambda tmp (append [op . args] tmp)])))
+						(parse env globals (partial-apply op args [] tmp))))
 					  (true (error "primitive call mismatch"))))
 	where (and (builtin? op) (null? (assq op env)))
 	env globals ls => (map (parse env globals) ls))
-- 
2.43.0


From a90905ec89e33b35a669b548e7ec8de4d4e8e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 87/90] fix: an index or a size beyond an int was cut to one

(vector-set! v 4294967297 x) stored at 1, (vector -1) and (bytes -1) made an
object that is smaller than its header.
---
 lib/string.c  |  4 ++--
 src/runtime.c | 19 +++++++++++++------
 src/types.c   |  5 ++++-
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/string.c b/lib/string.c
index 0daf565..015891c 100644
--- a/lib/string.c
+++ b/lib/string.c
@@ -11,11 +11,11 @@ static void
 stringSlice(struct Cora *co, int label, Obj *R) {
 	Obj str1 = R[1];
 	int len = bytesLen(str1);
-	int beg = fixnum(R[2]);
+	int64_t beg = fixnum(R[2]);
 	if (beg < 0) {
 		beg = len + beg;
 	}
-	int end = fixnum(R[3]);
+	int64_t end = fixnum(R[3]);
 	if (end < 0) {
 		end = len + end;
 	}
diff --git a/src/runtime.c b/src/runtime.c
index 0d68587..aa31916 100644
--- a/src/runtime.c
+++ b/src/runtime.c
@@ -10,6 +10,7 @@
 #include <dlfcn.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <pwd.h>
 #include <stdlib.h>
 #include <sys/stat.h>
@@ -270,11 +271,18 @@ symbolToString(Cora *co, int lable, Obj *R) {
 	coraReturn(co, val);
 }
 
+// A size or an index is an int, a number has more bits.
+static int
+toSize(Obj o) {
+	int64_t n = fixnum(o);
+	assert(n >= 0 && n <= INT_MAX);
+	return n;
+}
+
 void
 builtinBytes(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinBytes");
-	int n = fixnum(R[1]);
-	Obj val = makeBytes(co->gc, n);
+	Obj val = makeBytes(co->gc, toSize(R[1]));
 	coraReturn(co, val);
 }
 
@@ -644,8 +652,7 @@ builtinIsVector(Cora *co, int label, Obj *R) {
 static void
 builtinVector(Cora *co, int label, Obj *R) {
 	TRACE_SCOPE("builtinVector");
-	Obj o = R[1];
-	int n = fixnum(o);
+	int n = toSize(R[1]);
 	Obj res = makeVector(co->gc, n, n);
 	coraReturn(co, res);
 }
@@ -654,7 +661,7 @@ static void
 builtinVectorRef(Cora *co, int label, Obj *R) {
 	Obj v = R[1];
 	Obj idx = R[2];
-	coraReturn(co, vectorRef(v, fixnum(idx)));
+	coraReturn(co, vectorRef(v, toSize(idx)));
 }
 
 static void
@@ -663,7 +670,7 @@ builtinVectorSet(Cora *co, int label, Obj *R) {
 	Obj v = R[1];
 	Obj idx = R[2];
 	Obj o = R[3];
-	coraReturn(co, vectorSet(co->gc, v, fixnum(idx), o));
+	coraReturn(co, vectorSet(co->gc, v, toSize(idx), o));
 }
 
 static void
diff --git a/src/types.c b/src/types.c
index dabef54..6074149 100644
--- a/src/types.c
+++ b/src/types.c
@@ -2,6 +2,7 @@
 #include "gc.h"
 #include "map.h"
 #include "str.h"
+#include <limits.h>
 #include <stdarg.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -101,6 +102,7 @@ Obj
 makeBytes(GC *gc, int len) {
 	// sz is the actural length but we malloc a extra byte to be compatible with
 	// C.
+	assert(len >= 0 && len < INT_MAX - sizeof(struct scmBytes));
 	int alloc = len + sizeof(struct scmBytes) + 1;
 	struct scmBytes *str = newObj(gc, scmHeadBytes, alloc);
 	str->len = len;
@@ -272,7 +274,8 @@ nativeRequired(Obj o) {
 
 Obj
 makeVector(GC *gc, int size, int cap) {
-	assert(size <= cap);
+	assert(size >= 0 && size <= cap);
+	assert(cap <= (INT_MAX - sizeof(struct scmVector)) / sizeof(Obj));
 	struct scmVector *vec =
 		newObj(gc, scmHeadVector, sizeof(struct scmVector) + sizeof(Obj) * cap);
 	vec->head.rset = NULL;
-- 
2.43.0


From 04a0b1e0f4957e3f113fadf4322467ec67fdede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:40 +0000
Subject: [PATCH 88/90] fix: a fenced block indented within a block quote kept
 the indent of its fence

---
 lib/md4c/md4c.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index a61d736..8435c6d 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6535,6 +6535,10 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 				/* Some of the following whitespace actually still belongs to the mark. */
 				if (off >= ctx->size || ISNEWLINE(off)) {
 					container.contents_indent++;
+				} else if (container.ch == _T('>')) {
+					/* Only one space belongs to a block quote mark. */
+					if (line->indent > 0)
+						line->indent--;
 				} else if (line->indent <=
 					ctx->code_indent_offset) {
 					container.contents_indent +=
-- 
2.43.0


From 3c2a870780bd1707cef38add06f42f85bbdd26e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 89/90] fix: a blank line before an empty list item or block
 quote left the list tight

---
 lib/md4c/md4c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/md4c/md4c.c b/lib/md4c/md4c.c
index 8435c6d..93ead75 100644
--- a/lib/md4c/md4c.c
+++ b/lib/md4c/md4c.c
@@ -6717,7 +6717,7 @@ md_analyze_line(MD_CTX *ctx, OFF beg, OFF *p_end,
 
 	/* If we belong to a list after seeing a blank line, the list is loose, but
 	 * not when the blank line is one of a code block. */
-	if (prev_line_has_list_loosening_effect && line->type != MD_LINE_BLANK && n_parents + n_brothers > 0 &&
+	if (prev_line_has_list_loosening_effect && (line->type != MD_LINE_BLANK || n_brothers + n_children > 0) && n_parents + n_brothers > 0 &&
 		!(line->type == MD_LINE_INDENTEDCODE && pivot_line->type == MD_LINE_INDENTEDCODE)) {
 		MD_CONTAINER *c =
 			&ctx->containers[n_parents + n_brothers - 1];
-- 
2.43.0


From 4a4e9c24cbe9686cd7c9e5be1831b23d3908467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:24 +0000
Subject: [PATCH 90/90] fix: and, or: evaluate what comes before a constant
 operand

(or (f) true) and (and (f) false) were rewritten to the constant, so the
effects of (f), and what it throws, were lost.
---
 init.c    | 3574 ++++++++++++-----------
 init.cora |   10 +-
 lib/toc.c | 8214 ++++++++++++++++++++++++++---------------------------
 3 files changed, 5889 insertions(+), 5909 deletions(-)

diff --git a/init.c b/init.c
index 98dc322..ac17396 100644
--- a/init.c
+++ b/init.c
@@ -281,316 +281,316 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514840_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
-Obj v__3514843_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
-Obj v__3514846_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
-Obj v__3514849_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
-Obj v__3514852_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
-Obj v__3514856_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
-Obj v__3514861_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
-Obj v__3514865_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3514873_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3514875_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3514880_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3514836_37 = primSet(co, getBinding(co, packageID, 162).name, makeNative(co->gc, 2, clofun0, 1, 0));
+Obj v__3514839_37 = primSet(co, getBinding(co, packageID, 161).name, makeNative(co->gc, 2, clofun1, 1, 0));
+Obj v__3514842_37 = primSet(co, getBinding(co, packageID, 160).name, makeNative(co->gc, 2, clofun2, 1, 0));
+Obj v__3514845_37 = primSet(co, getBinding(co, packageID, 159).name, makeNative(co->gc, 2, clofun3, 1, 0));
+Obj v__3514848_37 = primSet(co, getBinding(co, packageID, 158).name, makeNative(co->gc, 2, clofun4, 1, 0));
+Obj v__3514852_37 = primSet(co, getBinding(co, packageID, 157).name, makeNative(co->gc, 2, clofun5, 1, 0));
+Obj v__3514857_37 = primSet(co, getBinding(co, packageID, 156).name, makeNative(co->gc, 2, clofun6, 1, 0));
+Obj v__3514861_37 = primSet(co, getBinding(co, packageID, 155).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3514869_37 = primSet(co, getBinding(co, packageID, 154).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3514871_37 = primSet(co, getBinding(co, packageID, 152).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3514876_37 = primSet(co, getBinding(co, packageID, 151).name, makeNative(co->gc, 3, clofun10, 2, 0));
 saveCont(co, clofun100, 15, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 151)), Nil);
 return;
 }
 case 1:
 {
-Obj v__3515367_37= co->res;
-Obj v__3515373_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
-Obj v__3515385_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
-Obj v__3515386_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3515387_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515386_37);
-Obj v__3515388_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515387_37);
-Obj v__3515389_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3515390_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515389_37);
-Obj v__3515391_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515390_37);
-Obj v__3515392_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3515361_37= co->res;
+Obj v__3515367_37 = primSet(co, getBinding(co, packageID, 76).name, makeNative(co->gc, 3, clofun85, 2, 0));
+Obj v__3515379_37 = primSet(co, getBinding(co, packageID, 71).name, makeNative(co->gc, 5, clofun86, 3, 0));
+Obj v__3515380_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3515381_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515380_37);
+Obj v__3515382_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515381_37);
+Obj v__3515383_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3515384_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515383_37);
+Obj v__3515385_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515384_37);
+Obj v__3515386_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3515387_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515386_37);
+Obj v__3515388_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515387_37);
+Obj v__3515389_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3515390_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515389_37);
+Obj v__3515391_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515390_37);
+Obj v__3515392_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
 Obj v__3515393_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515392_37);
-Obj v__3515394_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515393_37);
-Obj v__3515395_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3515394_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515393_37);
+Obj v__3515395_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
 Obj v__3515396_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515395_37);
-Obj v__3515397_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515396_37);
-Obj v__3515398_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3515399_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515398_37);
-Obj v__3515400_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515399_37);
-Obj v__3515401_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3515397_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515396_37);
+Obj v__3515398_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3515399_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515398_37);
+Obj v__3515400_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515399_37);
+Obj v__3515401_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
 Obj v__3515402_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515401_37);
-Obj v__3515403_37 = makeCons(co->gc, getBinding(co, packageID, 67).name, v__3515402_37);
-Obj v__3515404_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3515403_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515402_37);
+Obj v__3515404_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
 Obj v__3515405_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515404_37);
-Obj v__3515406_37 = makeCons(co->gc, getBinding(co, packageID, 66).name, v__3515405_37);
-Obj v__3515407_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3515406_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515405_37);
+Obj v__3515407_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
 Obj v__3515408_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515407_37);
-Obj v__3515409_37 = makeCons(co->gc, getBinding(co, packageID, 65).name, v__3515408_37);
-Obj v__3515410_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3515409_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515408_37);
+Obj v__3515410_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
 Obj v__3515411_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515410_37);
-Obj v__3515412_37 = makeCons(co->gc, getBinding(co, packageID, 64).name, v__3515411_37);
-Obj v__3515413_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
+Obj v__3515412_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515411_37);
+Obj v__3515413_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
 Obj v__3515414_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515413_37);
-Obj v__3515415_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515414_37);
-Obj v__3515416_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3515417_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515416_37);
-Obj v__3515418_37 = makeCons(co->gc, getBinding(co, packageID, 63).name, v__3515417_37);
-Obj v__3515419_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3515420_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3515419_37);
-Obj v__3515421_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515420_37);
-Obj v__3515422_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3515423_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515422_37);
-Obj v__3515424_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515423_37);
-Obj v__3515425_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3515415_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3515414_37);
+Obj v__3515416_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3515417_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3515416_37);
+Obj v__3515418_37 = makeCons(co->gc, getBinding(co, packageID, 61).name, v__3515417_37);
+Obj v__3515419_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3515420_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515419_37);
+Obj v__3515421_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515420_37);
+Obj v__3515422_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3515423_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515422_37);
+Obj v__3515424_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515423_37);
+Obj v__3515425_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
 Obj v__3515426_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515425_37);
-Obj v__3515427_37 = makeCons(co->gc, getBinding(co, packageID, 60).name, v__3515426_37);
-Obj v__3515428_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3515427_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515426_37);
+Obj v__3515428_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
 Obj v__3515429_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515428_37);
-Obj v__3515430_37 = makeCons(co->gc, getBinding(co, packageID, 59).name, v__3515429_37);
-Obj v__3515431_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3515432_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515431_37);
-Obj v__3515433_37 = makeCons(co->gc, getBinding(co, packageID, 58).name, v__3515432_37);
-Obj v__3515434_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3515435_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3515434_37);
-Obj v__3515436_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515435_37);
-Obj v__3515437_37 = makeCons(co->gc, v__3515436_37, Nil);
-Obj v__3515438_37 = makeCons(co->gc, v__3515433_37, v__3515437_37);
-Obj v__3515439_37 = makeCons(co->gc, v__3515430_37, v__3515438_37);
-Obj v__3515440_37 = makeCons(co->gc, v__3515427_37, v__3515439_37);
-Obj v__3515441_37 = makeCons(co->gc, v__3515424_37, v__3515440_37);
-Obj v__3515442_37 = makeCons(co->gc, v__3515421_37, v__3515441_37);
-Obj v__3515443_37 = makeCons(co->gc, v__3515418_37, v__3515442_37);
-Obj v__3515444_37 = makeCons(co->gc, v__3515415_37, v__3515443_37);
-Obj v__3515445_37 = makeCons(co->gc, v__3515412_37, v__3515444_37);
-Obj v__3515446_37 = makeCons(co->gc, v__3515409_37, v__3515445_37);
-Obj v__3515447_37 = makeCons(co->gc, v__3515406_37, v__3515446_37);
-Obj v__3515448_37 = makeCons(co->gc, v__3515403_37, v__3515447_37);
-Obj v__3515449_37 = makeCons(co->gc, v__3515400_37, v__3515448_37);
-Obj v__3515450_37 = makeCons(co->gc, v__3515397_37, v__3515449_37);
-Obj v__3515451_37 = makeCons(co->gc, v__3515394_37, v__3515450_37);
-Obj v__3515452_37 = makeCons(co->gc, v__3515391_37, v__3515451_37);
-Obj v__3515453_37 = makeCons(co->gc, v__3515388_37, v__3515452_37);
-Obj v__3515454_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515453_37);
-Obj v__3515469_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
-Obj v__3515473_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
-Obj v__3515651_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
-Obj v__3515652_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
-Obj v__3515653_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515652_37);
-Obj v__3515654_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515653_37);
-Obj v__3515655_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515654_37);
-Obj v__3515656_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515655_37);
-Obj v__3515657_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3515656_37);
-Obj v__3515658_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3515657_37);
-Obj v__3515659_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515658_37);
-Obj v__3515660_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515659_37);
-Obj v__3515661_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515660_37);
-Obj v__3515662_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515661_37);
-Obj v__3515663_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515662_37);
-Obj v__3515664_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515663_37);
-Obj v__3515665_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515664_37);
-Obj v__3515666_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515665_37);
-Obj v__3515667_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515666_37);
-Obj v__3515668_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515667_37);
-Obj v__3515669_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515668_37);
-Obj v__3515670_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515669_37);
-Obj v__3515671_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515670_37);
-Obj v__3515672_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515671_37);
-Obj v__3515673_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515672_37);
-Obj v__3515674_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515673_37);
-Obj v__3515675_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515674_37);
-Obj v__3515676_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515675_37);
-Obj v__3515677_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515676_37);
-Obj v__3515678_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3515677_37);
-Obj v__3515679_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515678_37);
-Obj v__3515680_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3515679_37);
-Obj v__3515681_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515680_37);
-Obj v__3515682_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515681_37);
-Obj v__3515683_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515682_37);
-Obj v__3515684_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515683_37);
-Obj v__3515685_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515684_37);
-Obj v__3515686_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515685_37);
-Obj v__3515687_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515686_37);
-Obj v__3515688_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515687_37);
-Obj v__3515689_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515688_37);
-Obj v__3515690_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515689_37);
-Obj v__3515691_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
-Obj v__3515692_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
-Obj v__3515693_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
-Obj v__3515694_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
-Obj v__3515695_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
-Obj v__3515696_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
-Obj v__3515697_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
-Obj v__3515698_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
-Obj v__3515699_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
-Obj v__3515700_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
-Obj v__3515701_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
-Obj v__3515702_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
-Obj v__3515703_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
-Obj v__3515704_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
-Obj v__3515705_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
-Obj v__3515706_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
-Obj v__3515707_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
-Obj v__3515708_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
-Obj v__3515709_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
-Obj v__3515710_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
-Obj v__3515711_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
-Obj v__3515712_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
-Obj v__3515713_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
-Obj v__3515714_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
-Obj v__3515715_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
-Obj v__3515716_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
-Obj v__3515717_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
-Obj v__3515718_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
-Obj v__3515719_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
-Obj v__3515720_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
-Obj v__3515721_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
-Obj v__3515722_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
-Obj v__3515723_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
-Obj v__3515724_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
-Obj v__3515725_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
-Obj v__3515726_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
-Obj v__3515727_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
-Obj v__3515728_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
-Obj v__3515729_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
-coraReturn(co, v__3515729_37);
+Obj v__3515430_37 = makeCons(co->gc, getBinding(co, packageID, 57).name, v__3515429_37);
+Obj v__3515431_37 = makeCons(co->gc, v__3515430_37, Nil);
+Obj v__3515432_37 = makeCons(co->gc, v__3515427_37, v__3515431_37);
+Obj v__3515433_37 = makeCons(co->gc, v__3515424_37, v__3515432_37);
+Obj v__3515434_37 = makeCons(co->gc, v__3515421_37, v__3515433_37);
+Obj v__3515435_37 = makeCons(co->gc, v__3515418_37, v__3515434_37);
+Obj v__3515436_37 = makeCons(co->gc, v__3515415_37, v__3515435_37);
+Obj v__3515437_37 = makeCons(co->gc, v__3515412_37, v__3515436_37);
+Obj v__3515438_37 = makeCons(co->gc, v__3515409_37, v__3515437_37);
+Obj v__3515439_37 = makeCons(co->gc, v__3515406_37, v__3515438_37);
+Obj v__3515440_37 = makeCons(co->gc, v__3515403_37, v__3515439_37);
+Obj v__3515441_37 = makeCons(co->gc, v__3515400_37, v__3515440_37);
+Obj v__3515442_37 = makeCons(co->gc, v__3515397_37, v__3515441_37);
+Obj v__3515443_37 = makeCons(co->gc, v__3515394_37, v__3515442_37);
+Obj v__3515444_37 = makeCons(co->gc, v__3515391_37, v__3515443_37);
+Obj v__3515445_37 = makeCons(co->gc, v__3515388_37, v__3515444_37);
+Obj v__3515446_37 = makeCons(co->gc, v__3515385_37, v__3515445_37);
+Obj v__3515447_37 = makeCons(co->gc, v__3515382_37, v__3515446_37);
+Obj v__3515448_37 = primSet(co, getBinding(co, packageID, 69).name, v__3515447_37);
+Obj v__3515463_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 3, clofun88, 2, 0));
+Obj v__3515467_37 = primSet(co, getBinding(co, packageID, 55).name, makeNative(co->gc, 2, clofun89, 1, 0));
+Obj v__3515645_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 5, clofun99, 4, 0));
+Obj v__3515646_37 = makeCons(co->gc, getBinding(co, packageID, 98).name, Nil);
+Obj v__3515647_37 = makeCons(co->gc, getBinding(co, packageID, 99).name, v__3515646_37);
+Obj v__3515648_37 = makeCons(co->gc, getBinding(co, packageID, 101).name, v__3515647_37);
+Obj v__3515649_37 = makeCons(co->gc, getBinding(co, packageID, 133).name, v__3515648_37);
+Obj v__3515650_37 = makeCons(co->gc, getBinding(co, packageID, 139).name, v__3515649_37);
+Obj v__3515651_37 = makeCons(co->gc, getBinding(co, packageID, 148).name, v__3515650_37);
+Obj v__3515652_37 = makeCons(co->gc, getBinding(co, packageID, 150).name, v__3515651_37);
+Obj v__3515653_37 = makeCons(co->gc, getBinding(co, packageID, 39).name, v__3515652_37);
+Obj v__3515654_37 = makeCons(co->gc, getBinding(co, packageID, 40).name, v__3515653_37);
+Obj v__3515655_37 = makeCons(co->gc, getBinding(co, packageID, 41).name, v__3515654_37);
+Obj v__3515656_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515655_37);
+Obj v__3515657_37 = makeCons(co->gc, getBinding(co, packageID, 42).name, v__3515656_37);
+Obj v__3515658_37 = makeCons(co->gc, getBinding(co, packageID, 43).name, v__3515657_37);
+Obj v__3515659_37 = makeCons(co->gc, getBinding(co, packageID, 70).name, v__3515658_37);
+Obj v__3515660_37 = makeCons(co->gc, getBinding(co, packageID, 44).name, v__3515659_37);
+Obj v__3515661_37 = makeCons(co->gc, getBinding(co, packageID, 45).name, v__3515660_37);
+Obj v__3515662_37 = makeCons(co->gc, getBinding(co, packageID, 46).name, v__3515661_37);
+Obj v__3515663_37 = makeCons(co->gc, getBinding(co, packageID, 47).name, v__3515662_37);
+Obj v__3515664_37 = makeCons(co->gc, getBinding(co, packageID, 48).name, v__3515663_37);
+Obj v__3515665_37 = makeCons(co->gc, getBinding(co, packageID, 49).name, v__3515664_37);
+Obj v__3515666_37 = makeCons(co->gc, getBinding(co, packageID, 50).name, v__3515665_37);
+Obj v__3515667_37 = makeCons(co->gc, getBinding(co, packageID, 51).name, v__3515666_37);
+Obj v__3515668_37 = makeCons(co->gc, getBinding(co, packageID, 52).name, v__3515667_37);
+Obj v__3515669_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3515668_37);
+Obj v__3515670_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3515669_37);
+Obj v__3515671_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3515670_37);
+Obj v__3515672_37 = makeCons(co->gc, getBinding(co, packageID, 162).name, v__3515671_37);
+Obj v__3515673_37 = makeCons(co->gc, getBinding(co, packageID, 54).name, v__3515672_37);
+Obj v__3515674_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3515673_37);
+Obj v__3515675_37 = makeCons(co->gc, getBinding(co, packageID, 132).name, v__3515674_37);
+Obj v__3515676_37 = makeCons(co->gc, getBinding(co, packageID, 152).name, v__3515675_37);
+Obj v__3515677_37 = makeCons(co->gc, getBinding(co, packageID, 155).name, v__3515676_37);
+Obj v__3515678_37 = makeCons(co->gc, getBinding(co, packageID, 156).name, v__3515677_37);
+Obj v__3515679_37 = makeCons(co->gc, getBinding(co, packageID, 157).name, v__3515678_37);
+Obj v__3515680_37 = makeCons(co->gc, getBinding(co, packageID, 158).name, v__3515679_37);
+Obj v__3515681_37 = makeCons(co->gc, getBinding(co, packageID, 159).name, v__3515680_37);
+Obj v__3515682_37 = makeCons(co->gc, getBinding(co, packageID, 160).name, v__3515681_37);
+Obj v__3515683_37 = makeCons(co->gc, getBinding(co, packageID, 161).name, v__3515682_37);
+Obj v__3515684_37 = primSet(co, getBinding(co, packageID, 53).name, v__3515683_37);
+Obj v__3515685_37 = primSet(co, getBinding(co, packageID, 38).name, globalRef(co, getBinding(co, packageID, 161)));
+Obj v__3515686_37 = primSet(co, getBinding(co, packageID, 37).name, globalRef(co, getBinding(co, packageID, 160)));
+Obj v__3515687_37 = primSet(co, getBinding(co, packageID, 36).name, globalRef(co, getBinding(co, packageID, 159)));
+Obj v__3515688_37 = primSet(co, getBinding(co, packageID, 35).name, globalRef(co, getBinding(co, packageID, 158)));
+Obj v__3515689_37 = primSet(co, getBinding(co, packageID, 34).name, globalRef(co, getBinding(co, packageID, 157)));
+Obj v__3515690_37 = primSet(co, getBinding(co, packageID, 33).name, globalRef(co, getBinding(co, packageID, 156)));
+Obj v__3515691_37 = primSet(co, getBinding(co, packageID, 32).name, globalRef(co, getBinding(co, packageID, 155)));
+Obj v__3515692_37 = primSet(co, getBinding(co, packageID, 31).name, globalRef(co, getBinding(co, packageID, 152)));
+Obj v__3515693_37 = primSet(co, getBinding(co, packageID, 30).name, globalRef(co, getBinding(co, packageID, 132)));
+Obj v__3515694_37 = primSet(co, getBinding(co, packageID, 29).name, globalRef(co, getBinding(co, packageID, 122)));
+Obj v__3515695_37 = primSet(co, getBinding(co, packageID, 28).name, globalRef(co, getBinding(co, packageID, 162)));
+Obj v__3515696_37 = primSet(co, getBinding(co, packageID, 27).name, globalRef(co, getBinding(co, packageID, 54)));
+Obj v__3515697_37 = primSet(co, getBinding(co, packageID, 26).name, globalRef(co, getBinding(co, packageID, 73)));
+Obj v__3515698_37 = primSet(co, getBinding(co, packageID, 25).name, globalRef(co, getBinding(co, packageID, 74)));
+Obj v__3515699_37 = primSet(co, getBinding(co, packageID, 24).name, globalRef(co, getBinding(co, packageID, 72)));
+Obj v__3515700_37 = primSet(co, getBinding(co, packageID, 23).name, globalRef(co, getBinding(co, packageID, 52)));
+Obj v__3515701_37 = primSet(co, getBinding(co, packageID, 22).name, globalRef(co, getBinding(co, packageID, 51)));
+Obj v__3515702_37 = primSet(co, getBinding(co, packageID, 21).name, globalRef(co, getBinding(co, packageID, 50)));
+Obj v__3515703_37 = primSet(co, getBinding(co, packageID, 20).name, globalRef(co, getBinding(co, packageID, 49)));
+Obj v__3515704_37 = primSet(co, getBinding(co, packageID, 19).name, globalRef(co, getBinding(co, packageID, 48)));
+Obj v__3515705_37 = primSet(co, getBinding(co, packageID, 18).name, globalRef(co, getBinding(co, packageID, 47)));
+Obj v__3515706_37 = primSet(co, getBinding(co, packageID, 17).name, globalRef(co, getBinding(co, packageID, 46)));
+Obj v__3515707_37 = primSet(co, getBinding(co, packageID, 16).name, globalRef(co, getBinding(co, packageID, 44)));
+Obj v__3515708_37 = primSet(co, getBinding(co, packageID, 15).name, globalRef(co, getBinding(co, packageID, 70)));
+Obj v__3515709_37 = primSet(co, getBinding(co, packageID, 14).name, globalRef(co, getBinding(co, packageID, 45)));
+Obj v__3515710_37 = primSet(co, getBinding(co, packageID, 13).name, globalRef(co, getBinding(co, packageID, 43)));
+Obj v__3515711_37 = primSet(co, getBinding(co, packageID, 12).name, globalRef(co, getBinding(co, packageID, 41)));
+Obj v__3515712_37 = primSet(co, getBinding(co, packageID, 11).name, globalRef(co, getBinding(co, packageID, 42)));
+Obj v__3515713_37 = primSet(co, getBinding(co, packageID, 10).name, globalRef(co, getBinding(co, packageID, 81)));
+Obj v__3515714_37 = primSet(co, getBinding(co, packageID, 9).name, globalRef(co, getBinding(co, packageID, 40)));
+Obj v__3515715_37 = primSet(co, getBinding(co, packageID, 8).name, globalRef(co, getBinding(co, packageID, 39)));
+Obj v__3515716_37 = primSet(co, getBinding(co, packageID, 7).name, globalRef(co, getBinding(co, packageID, 150)));
+Obj v__3515717_37 = primSet(co, getBinding(co, packageID, 6).name, globalRef(co, getBinding(co, packageID, 148)));
+Obj v__3515718_37 = primSet(co, getBinding(co, packageID, 5).name, globalRef(co, getBinding(co, packageID, 139)));
+Obj v__3515719_37 = primSet(co, getBinding(co, packageID, 4).name, globalRef(co, getBinding(co, packageID, 133)));
+Obj v__3515720_37 = primSet(co, getBinding(co, packageID, 3).name, globalRef(co, getBinding(co, packageID, 101)));
+Obj v__3515721_37 = primSet(co, getBinding(co, packageID, 2).name, globalRef(co, getBinding(co, packageID, 99)));
+Obj v__3515722_37 = primSet(co, getBinding(co, packageID, 1).name, globalRef(co, getBinding(co, packageID, 98)));
+Obj v__3515723_37 = primSet(co, getBinding(co, packageID, 0).name, globalRef(co, getBinding(co, packageID, 56)));
+coraReturn(co, v__3515723_37);
 return;
 }
 case 2:
 {
-Obj v__3515317_37= co->res;
-Obj v__3515346_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
-Obj v__3515347_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
+Obj v__3515311_37= co->res;
+Obj v__3515340_37 = primSet(co, getBinding(co, packageID, 83).name, makeNative(co->gc, 5, clofun80, 4, 0));
+Obj v__3515341_37 = primSet(co, getBinding(co, packageID, 80).name, makeNative(co->gc, 3, clofun81, 2, 0));
 saveCont(co, clofun100, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 79).name, makeNative(co->gc, 2, clofun84, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3515300_37= co->res;
-Obj v__3515314_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
+Obj v__3515294_37= co->res;
+Obj v__3515308_37 = primSet(co, getBinding(co, packageID, 85).name, makeNative(co->gc, 3, clofun76, 2, 0));
 saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 84).name, makeNative(co->gc, 2, clofun77, 1, 0));
 return;
 }
 case 4:
 {
-Obj v__3515278_37= co->res;
-Obj v__3515298_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
+Obj v__3515272_37= co->res;
+Obj v__3515292_37 = primSet(co, getBinding(co, packageID, 88).name, makeNative(co->gc, 2, clofun74, 1, 0));
 saveCont(co, clofun100, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 86).name, makeNative(co->gc, 2, clofun75, 1, 0));
 return;
 }
 case 5:
 {
-Obj v__3515247_37= co->res;
-Obj v__3515248_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
-Obj v__3515249_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
-Obj v__3515252_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
-Obj v__3515276_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
+Obj v__3515241_37= co->res;
+Obj v__3515242_37 = primSet(co, getBinding(co, packageID, 94).name, makeNative(co->gc, 2, clofun66, 1, 0));
+Obj v__3515243_37 = primSet(co, getBinding(co, packageID, 92).name, makeNative(co->gc, 2, clofun67, 1, 0));
+Obj v__3515246_37 = primSet(co, getBinding(co, packageID, 139).name, makeNative(co->gc, 2, clofun68, 1, 0));
+Obj v__3515270_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 2, clofun71, 1, 0));
 saveCont(co, clofun100, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 89).name, makeNative(co->gc, 2, clofun72, 1, 0));
 return;
 }
 case 6:
 {
-Obj v__3515140_37= co->res;
-Obj v__3515192_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
-Obj v__3515193_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
-Obj v__3515198_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
-Obj v__3515202_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
-Obj v__3515203_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
-Obj v__3515211_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
-Obj v__3515212_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
-Obj v__3515218_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
-Obj v__3515229_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
-Obj v__3515235_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
+Obj v__3515134_37= co->res;
+Obj v__3515186_37 = primSet(co, getBinding(co, packageID, 106).name, makeNative(co->gc, 5, clofun53, 3, 0));
+Obj v__3515187_37 = primSet(co, getBinding(co, packageID, 104).name, makeNative(co->gc, 2, clofun54, 1, 0));
+Obj v__3515192_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 3, clofun55, 2, 0));
+Obj v__3515196_37 = primSet(co, getBinding(co, packageID, 102).name, makeNative(co->gc, 3, clofun56, 2, 0));
+Obj v__3515197_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun57, 1, 0));
+Obj v__3515205_37 = primSet(co, getBinding(co, packageID, 100).name, makeNative(co->gc, 4, clofun58, 3, 0));
+Obj v__3515206_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun59, 2, 0));
+Obj v__3515212_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 3, clofun60, 2, 0));
+Obj v__3515223_37 = primSet(co, getBinding(co, packageID, 97).name, makeNative(co->gc, 2, clofun63, 1, 0));
+Obj v__3515229_37 = primSet(co, getBinding(co, packageID, 96).name, makeNative(co->gc, 2, clofun64, 1, 0));
 saveCont(co, clofun100, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 95).name, makeNative(co->gc, 4, clofun65, 1, 0));
 return;
 }
 case 7:
 {
-Obj v__3515027_37= co->res;
-Obj v__3515049_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
-Obj v__3515082_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
-Obj v__3515095_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
-Obj v__3515117_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
-Obj v__3515135_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
-Obj v__3515139_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
+Obj v__3515021_37= co->res;
+Obj v__3515043_37 = primSet(co, getBinding(co, packageID, 119).name, makeNative(co->gc, 5, clofun36, 4, 0));
+Obj v__3515076_37 = primSet(co, getBinding(co, packageID, 118).name, makeNative(co->gc, 5, clofun38, 4, 0));
+Obj v__3515089_37 = primSet(co, getBinding(co, packageID, 112).name, makeNative(co->gc, 3, clofun40, 2, 0));
+Obj v__3515111_37 = primSet(co, getBinding(co, packageID, 110).name, makeNative(co->gc, 3, clofun42, 2, 0));
+Obj v__3515129_37 = primSet(co, getBinding(co, packageID, 109).name, makeNative(co->gc, 3, clofun47, 2, 0));
+Obj v__3515133_37 = primSet(co, getBinding(co, packageID, 108).name, makeNative(co->gc, 2, clofun49, 1, 0));
 saveCont(co, clofun100, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 107).name, makeNative(co->gc, 2, clofun50, 1, 0));
 return;
 }
 case 8:
 {
-Obj v__3515012_37= co->res;
-Obj v__3515015_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
-Obj v__3515025_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
+Obj v__3515006_37= co->res;
+Obj v__3515009_37 = primSet(co, getBinding(co, packageID, 122).name, makeNative(co->gc, 2, clofun32, 1, 0));
+Obj v__3515019_37 = primSet(co, getBinding(co, packageID, 121).name, makeNative(co->gc, 2, clofun33, 1, 0));
 saveCont(co, clofun100, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 120).name, makeNative(co->gc, 2, clofun34, 1, 0));
 return;
 }
 case 9:
 {
-Obj v__3514998_37= co->res;
-Obj v__3515010_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
+Obj v__3514993_37= co->res;
+Obj v__3515004_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 2, clofun30, 1, 0));
 saveCont(co, clofun100, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 123).name, makeNative(co->gc, 2, clofun31, 1, 0));
 return;
 }
 case 10:
 {
-Obj v__3514984_37= co->res;
-Obj v__3514996_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
+Obj v__3514980_37= co->res;
+Obj v__3514991_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 2, clofun28, 1, 0));
 saveCont(co, clofun100, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 125).name, makeNative(co->gc, 2, clofun29, 1, 0));
 return;
 }
 case 11:
 {
-Obj v__3514970_37= co->res;
+Obj v__3514966_37= co->res;
 saveCont(co, clofun100, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun27, 1, 0));
 return;
 }
 case 12:
 {
-Obj v__3514948_37= co->res;
-Obj v__3514953_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
-Obj v__3514956_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
-Obj v__3514968_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
+Obj v__3514944_37= co->res;
+Obj v__3514949_37 = primSet(co, getBinding(co, packageID, 133).name, makeNative(co->gc, 3, clofun23, 2, 0));
+Obj v__3514952_37 = primSet(co, getBinding(co, packageID, 132).name, makeNative(co->gc, 2, clofun24, 1, 0));
+Obj v__3514964_37 = primSet(co, getBinding(co, packageID, 131).name, makeNative(co->gc, 3, clofun25, 1, 0));
 saveCont(co, clofun100, 11, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 130).name, makeNative(co->gc, 2, clofun26, 1, 0));
 return;
 }
 case 13:
 {
-Obj v__3514938_37= co->res;
+Obj v__3514934_37= co->res;
 saveCont(co, clofun100, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 135).name, makeNative(co->gc, 3, clofun22, 1, 0));
 return;
 }
 case 14:
 {
-Obj v__3514936_37= co->res;
+Obj v__3514932_37= co->res;
 saveCont(co, clofun100, 13, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 136).name, makeNative(co->gc, 2, clofun21, 1, 0));
 return;
 }
 case 15:
 {
-Obj v__3514881_37= co->res;
-Obj v__3514882_37 = primSet(co, getBinding(co, packageID, 150).name, v__3514881_37);
-Obj v__3514888_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
-Obj v__3514889_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
-Obj v__3514890_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
-Obj v__3514891_37 = primGenSym(co);
-Obj v__3514892_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514891_37);
-Obj v__3514896_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
-Obj v__3514905_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
-Obj v__3514906_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
-Obj v__3514923_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
-Obj v__3514924_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
-Obj v__3514935_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
+Obj v__3514877_37= co->res;
+Obj v__3514878_37 = primSet(co, getBinding(co, packageID, 150).name, v__3514877_37);
+Obj v__3514884_37 = primSet(co, getBinding(co, packageID, 149).name, makeNative(co->gc, 4, clofun11, 3, 0));
+Obj v__3514885_37 = primSet(co, getBinding(co, packageID, 148).name, makeNative(co->gc, 3, clofun12, 2, 0));
+Obj v__3514886_37 = primSet(co, getBinding(co, packageID, 147).name, Nil);
+Obj v__3514887_37 = primGenSym(co);
+Obj v__3514888_37 = primSet(co, getBinding(co, packageID, 146).name, v__3514887_37);
+Obj v__3514892_37 = primSet(co, getBinding(co, packageID, 145).name, makeNative(co->gc, 3, clofun13, 2, 0));
+Obj v__3514901_37 = primSet(co, getBinding(co, packageID, 144).name, makeNative(co->gc, 3, clofun16, 2, 0));
+Obj v__3514902_37 = primSet(co, getBinding(co, packageID, 143).name, makeNative(co->gc, 2, clofun17, 1, 0));
+Obj v__3514919_37 = primSet(co, getBinding(co, packageID, 142).name, makeNative(co->gc, 2, clofun19, 1, 0));
+Obj v__3514920_37 = primSet(co, getBinding(co, packageID, 139).name, globalRef(co, getBinding(co, packageID, 142)));
+Obj v__3514931_37 = primSet(co, getBinding(co, packageID, 138).name, makeNative(co->gc, 3, clofun20, 1, 0));
 saveCont(co, clofun100, 14, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 145)), getBinding(co, packageID, 137).name, globalRef(co, getBinding(co, packageID, 138)));
 return;
@@ -602,67 +602,67 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514664_37 = R[1];
-Obj v__3514665_37 = R[2];
-Obj v__3514666_37 = R[3];
-Obj v__3514667_37 = R[4];
-Obj v__3514812_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3514664_37, v__3514665_37, v__3514666_37, v__3514667_37);
-R[1] = v__3514667_37;
-R[2] = v__3514812_37;
+Obj v__3514662_37 = R[1];
+Obj v__3514663_37 = R[2];
+Obj v__3514664_37 = R[3];
+Obj v__3514665_37 = R[4];
+Obj v__3514808_37 = makeNative(co->gc, 2, clofun98, 1, 4, v__3514662_37, v__3514663_37, v__3514664_37, v__3514665_37);
+R[1] = v__3514665_37;
+R[2] = v__3514808_37;
 saveCont(co, clofun99, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 54)), v__3514665_37);
 return;
 }
 case 1:
 {
-Obj v__3515650_37= co->res;
-Obj v__3514812_37 = R[1];
-if (True == v__3515650_37) {
+Obj v__3515644_37= co->res;
+Obj v__3514808_37 = R[1];
+if (True == v__3515644_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514812_37, True);
+coraCall1(co, v__3514808_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514812_37, False);
+coraCall1(co, v__3514808_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3515649_37= co->res;
-Obj v__3514667_37 = R[1];
-Obj v__3514812_37 = R[2];
-if (True == v__3515649_37) {
+Obj v__3515643_37= co->res;
+Obj v__3514665_37 = R[1];
+Obj v__3514808_37 = R[2];
+if (True == v__3515643_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514812_37, True);
+coraCall1(co, v__3514808_37, True);
 return;
 } else {
-R[1] = v__3514812_37;
+R[1] = v__3514808_37;
 saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514665_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3515647_37= co->res;
-Obj v__3514667_37 = R[1];
-Obj v__3514812_37 = R[2];
-if (True == v__3515647_37) {
+Obj v__3515641_37= co->res;
+Obj v__3514665_37 = R[1];
+Obj v__3514808_37 = R[2];
+if (True == v__3515641_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514812_37, True);
+coraCall1(co, v__3514808_37, True);
 return;
 } else {
-Obj v__3515648_37 = primIsString(v__3514667_37);
-if (True == v__3515648_37) {
+Obj v__3515642_37 = primIsString(v__3514665_37);
+if (True == v__3515642_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514812_37, True);
+coraCall1(co, v__3514808_37, True);
 return;
 } else {
-R[1] = v__3514667_37;
-R[2] = v__3514812_37;
+R[1] = v__3514665_37;
+R[2] = v__3514808_37;
 saveCont(co, clofun99, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3514667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 122)), v__3514665_37);
 return;
 }
 }
@@ -674,49 +674,49 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514811_37 = R[1];
-if (True == v__3514811_37) {
+Obj v__3514807_37 = R[1];
+if (True == v__3514807_37) {
 coraReturn(co, closureRef(R[0], 3));
 return;
 } else {
-Obj v__3514813_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3515635_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3515635_37) {
-Obj v__3515636_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3515637_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515636_37);
-if (True == v__3515637_37) {
-Obj v__3515638_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515639_37 = PRIM_ISCONS(v__3515638_37);
-if (True == v__3515639_37) {
-Obj v__3515640_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515641_37 = PRIM_CAR(v__3515640_37);
-Obj v__3514838_37 = v__3515641_37;
-Obj v__3515642_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3515643_37 = PRIM_CDR(v__3515642_37);
-Obj v__3515644_37 = PRIM_EQ(Nil, v__3515643_37);
-if (True == v__3515644_37) {
-Obj v__3515645_37 = makeCons(co->gc, v__3514838_37, Nil);
-Obj v__3515646_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515645_37);
-coraReturn(co, v__3515646_37);
+Obj v__3514809_37 = makeNative(co->gc, 3, clofun97, 0, 4, closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515629_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3515629_37) {
+Obj v__3515630_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3515631_37 = PRIM_EQ(getBinding(co, packageID, 140).name, v__3515630_37);
+if (True == v__3515631_37) {
+Obj v__3515632_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515633_37 = PRIM_ISCONS(v__3515632_37);
+if (True == v__3515633_37) {
+Obj v__3515634_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515635_37 = PRIM_CAR(v__3515634_37);
+Obj v__3514834_37 = v__3515635_37;
+Obj v__3515636_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3515637_37 = PRIM_CDR(v__3515636_37);
+Obj v__3515638_37 = PRIM_EQ(Nil, v__3515637_37);
+if (True == v__3515638_37) {
+Obj v__3515639_37 = makeCons(co->gc, v__3514834_37, Nil);
+Obj v__3515640_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515639_37);
+coraReturn(co, v__3515640_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514813_37);
+coraCall0(co, v__3514809_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514813_37);
+coraCall0(co, v__3514809_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514813_37);
+coraCall0(co, v__3514809_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514813_37);
+coraCall0(co, v__3514809_37);
 return;
 }
 }
@@ -728,73 +728,73 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515474_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3515474_37) {
+Obj v__3515468_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3515468_37) {
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514814_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515613_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515613_37) {
-Obj v__3515614_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515615_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3515614_37);
-if (True == v__3515615_37) {
-Obj v__3515616_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515617_37 = PRIM_ISCONS(v__3515616_37);
-if (True == v__3515617_37) {
-Obj v__3515618_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514810_37 = makeNative(co->gc, 3, clofun96, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515607_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515607_37) {
+Obj v__3515608_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515609_37 = PRIM_EQ(getBinding(co, packageID, 141).name, v__3515608_37);
+if (True == v__3515609_37) {
+Obj v__3515610_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515611_37 = PRIM_ISCONS(v__3515610_37);
+if (True == v__3515611_37) {
+Obj v__3515612_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515613_37 = PRIM_CAR(v__3515612_37);
+Obj v__3514832_37 = v__3515613_37;
+Obj v__3515614_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515615_37 = PRIM_CDR(v__3515614_37);
+Obj v__3515616_37 = PRIM_ISCONS(v__3515615_37);
+if (True == v__3515616_37) {
+Obj v__3515617_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515618_37 = PRIM_CDR(v__3515617_37);
 Obj v__3515619_37 = PRIM_CAR(v__3515618_37);
-Obj v__3514836_37 = v__3515619_37;
+Obj v__3514833_37 = v__3515619_37;
 Obj v__3515620_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3515621_37 = PRIM_CDR(v__3515620_37);
-Obj v__3515622_37 = PRIM_ISCONS(v__3515621_37);
-if (True == v__3515622_37) {
-Obj v__3515623_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515624_37 = PRIM_CDR(v__3515623_37);
-Obj v__3515625_37 = PRIM_CAR(v__3515624_37);
-Obj v__3514837_37 = v__3515625_37;
-Obj v__3515626_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515627_37 = PRIM_CDR(v__3515626_37);
-Obj v__3515628_37 = PRIM_CDR(v__3515627_37);
-Obj v__3515629_37 = PRIM_EQ(Nil, v__3515628_37);
-if (True == v__3515629_37) {
-R[1] = v__3514837_37;
-R[2] = v__3514836_37;
+Obj v__3515622_37 = PRIM_CDR(v__3515621_37);
+Obj v__3515623_37 = PRIM_EQ(Nil, v__3515622_37);
+if (True == v__3515623_37) {
+R[1] = v__3514833_37;
+R[2] = v__3514832_37;
 saveCont(co, clofun97, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514836_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3514832_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514814_37);
+coraCall0(co, v__3514810_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514814_37);
+coraCall0(co, v__3514810_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514814_37);
+coraCall0(co, v__3514810_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514814_37);
+coraCall0(co, v__3514810_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514814_37);
+coraCall0(co, v__3514810_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515476_37= co->res;
-if (True == v__3515476_37) {
+Obj v__3515470_37= co->res;
+if (True == v__3515470_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -805,8 +805,8 @@ return;
 }
 case 2:
 {
-Obj v__3515475_37= co->res;
-if (True == v__3515475_37) {
+Obj v__3515469_37= co->res;
+if (True == v__3515469_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
@@ -817,22 +817,22 @@ return;
 }
 case 3:
 {
-Obj v__3515631_37= co->res;
-Obj v__3514836_37 = R[1];
-Obj v__3515632_37 = makeCons(co->gc, v__3515631_37, Nil);
-Obj v__3515633_37 = makeCons(co->gc, v__3514836_37, v__3515632_37);
-Obj v__3515634_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515633_37);
-coraReturn(co, v__3515634_37);
+Obj v__3515625_37= co->res;
+Obj v__3514832_37 = R[1];
+Obj v__3515626_37 = makeCons(co->gc, v__3515625_37, Nil);
+Obj v__3515627_37 = makeCons(co->gc, v__3514832_37, v__3515626_37);
+Obj v__3515628_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515627_37);
+coraReturn(co, v__3515628_37);
 return;
 }
 case 4:
 {
-Obj v__3515630_37= co->res;
-Obj v__3514837_37 = R[1];
-Obj v__3514836_37 = R[2];
-R[1] = v__3514836_37;
+Obj v__3515624_37= co->res;
+Obj v__3514833_37 = R[1];
+Obj v__3514832_37 = R[2];
+R[1] = v__3514832_37;
 saveCont(co, clofun97, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515630_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514837_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515624_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514833_37);
 return;
 }
 }
@@ -842,132 +842,132 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514815_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515569_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515569_37) {
-Obj v__3515570_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515571_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515570_37);
-if (True == v__3515571_37) {
-Obj v__3515572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515573_37 = PRIM_ISCONS(v__3515572_37);
-if (True == v__3515573_37) {
-Obj v__3515574_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515575_37 = PRIM_CAR(v__3515574_37);
-Obj v__3515576_37 = PRIM_ISCONS(v__3515575_37);
-if (True == v__3515576_37) {
-Obj v__3515577_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515578_37 = PRIM_CAR(v__3515577_37);
-Obj v__3515579_37 = PRIM_CAR(v__3515578_37);
-Obj v__3515580_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515579_37);
-if (True == v__3515580_37) {
-Obj v__3515581_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514811_37 = makeNative(co->gc, 1, clofun95, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515563_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515563_37) {
+Obj v__3515564_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515565_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3515564_37);
+if (True == v__3515565_37) {
+Obj v__3515566_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515567_37 = PRIM_ISCONS(v__3515566_37);
+if (True == v__3515567_37) {
+Obj v__3515568_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515569_37 = PRIM_CAR(v__3515568_37);
+Obj v__3515570_37 = PRIM_ISCONS(v__3515569_37);
+if (True == v__3515570_37) {
+Obj v__3515571_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515572_37 = PRIM_CAR(v__3515571_37);
+Obj v__3515573_37 = PRIM_CAR(v__3515572_37);
+Obj v__3515574_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515573_37);
+if (True == v__3515574_37) {
+Obj v__3515575_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515576_37 = PRIM_CAR(v__3515575_37);
+Obj v__3515577_37 = PRIM_CDR(v__3515576_37);
+Obj v__3515578_37 = PRIM_ISCONS(v__3515577_37);
+if (True == v__3515578_37) {
+Obj v__3515579_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515580_37 = PRIM_CAR(v__3515579_37);
+Obj v__3515581_37 = PRIM_CDR(v__3515580_37);
 Obj v__3515582_37 = PRIM_CAR(v__3515581_37);
-Obj v__3515583_37 = PRIM_CDR(v__3515582_37);
-Obj v__3515584_37 = PRIM_ISCONS(v__3515583_37);
-if (True == v__3515584_37) {
-Obj v__3515585_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515586_37 = PRIM_CAR(v__3515585_37);
-Obj v__3515587_37 = PRIM_CDR(v__3515586_37);
-Obj v__3515588_37 = PRIM_CAR(v__3515587_37);
-Obj v__3514834_37 = v__3515588_37;
-Obj v__3515589_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515590_37 = PRIM_CAR(v__3515589_37);
-Obj v__3515591_37 = PRIM_CDR(v__3515590_37);
+Obj v__3514830_37 = v__3515582_37;
+Obj v__3515583_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515584_37 = PRIM_CAR(v__3515583_37);
+Obj v__3515585_37 = PRIM_CDR(v__3515584_37);
+Obj v__3515586_37 = PRIM_CDR(v__3515585_37);
+Obj v__3515587_37 = PRIM_EQ(Nil, v__3515586_37);
+if (True == v__3515587_37) {
+Obj v__3515588_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515589_37 = PRIM_CDR(v__3515588_37);
+Obj v__3515590_37 = PRIM_ISCONS(v__3515589_37);
+if (True == v__3515590_37) {
+Obj v__3515591_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3515592_37 = PRIM_CDR(v__3515591_37);
-Obj v__3515593_37 = PRIM_EQ(Nil, v__3515592_37);
-if (True == v__3515593_37) {
+Obj v__3515593_37 = PRIM_CAR(v__3515592_37);
+Obj v__3514831_37 = v__3515593_37;
 Obj v__3515594_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3515595_37 = PRIM_CDR(v__3515594_37);
-Obj v__3515596_37 = PRIM_ISCONS(v__3515595_37);
-if (True == v__3515596_37) {
-Obj v__3515597_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515598_37 = PRIM_CDR(v__3515597_37);
-Obj v__3515599_37 = PRIM_CAR(v__3515598_37);
-Obj v__3514835_37 = v__3515599_37;
-Obj v__3515600_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515601_37 = PRIM_CDR(v__3515600_37);
-Obj v__3515602_37 = PRIM_CDR(v__3515601_37);
-Obj v__3515603_37 = PRIM_EQ(Nil, v__3515602_37);
-if (True == v__3515603_37) {
-Obj v__3515604_37 = primIsString(v__3514834_37);
-if (True == v__3515604_37) {
-Obj v__3515605_37 = makeCons(co->gc, v__3514834_37, Nil);
-Obj v__3515606_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515605_37);
-R[1] = v__3514834_37;
-R[2] = v__3514835_37;
+Obj v__3515596_37 = PRIM_CDR(v__3515595_37);
+Obj v__3515597_37 = PRIM_EQ(Nil, v__3515596_37);
+if (True == v__3515597_37) {
+Obj v__3515598_37 = primIsString(v__3514830_37);
+if (True == v__3515598_37) {
+Obj v__3515599_37 = makeCons(co->gc, v__3514830_37, Nil);
+Obj v__3515600_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515599_37);
+R[1] = v__3514830_37;
+R[2] = v__3514831_37;
 saveCont(co, clofun96, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515606_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3515600_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514815_37);
+coraCall0(co, v__3514811_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515609_37= co->res;
-Obj v__3515607_37 = R[1];
-Obj v__3515610_37 = makeCons(co->gc, v__3515609_37, Nil);
-Obj v__3515611_37 = makeCons(co->gc, v__3515607_37, v__3515610_37);
-Obj v__3515612_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515611_37);
-coraReturn(co, v__3515612_37);
+Obj v__3515603_37= co->res;
+Obj v__3515601_37 = R[1];
+Obj v__3515604_37 = makeCons(co->gc, v__3515603_37, Nil);
+Obj v__3515605_37 = makeCons(co->gc, v__3515601_37, v__3515604_37);
+Obj v__3515606_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515605_37);
+coraReturn(co, v__3515606_37);
 return;
 }
 case 2:
 {
-Obj v__3515607_37= co->res;
-Obj v__3514834_37 = R[1];
-Obj v__3514835_37 = R[2];
-Obj v__3515608_37 = makeCons(co->gc, v__3514834_37, closureRef(R[0], 3));
-R[1] = v__3515607_37;
+Obj v__3515601_37= co->res;
+Obj v__3514830_37 = R[1];
+Obj v__3514831_37 = R[2];
+Obj v__3515602_37 = makeCons(co->gc, v__3514830_37, closureRef(R[0], 3));
+R[1] = v__3515601_37;
 saveCont(co, clofun96, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515608_37, v__3514835_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3515602_37, v__3514831_37);
 return;
 }
 }
@@ -977,34 +977,34 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514816_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3515561_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj v__3514812_37 = makeNative(co->gc, 3, clofun93, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3515555_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515555_37) {
+Obj v__3515556_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514825_37 = v__3515556_37;
+Obj v__3515557_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514826_37 = v__3515557_37;
+Obj v__3514829_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3514825_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514826_37, v__3514812_37);
+Obj v__3515561_37 = PRIM_EQ(v__3514825_37, getBinding(co, packageID, 127).name);
 if (True == v__3515561_37) {
-Obj v__3515562_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514829_37 = v__3515562_37;
-Obj v__3515563_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514830_37 = v__3515563_37;
-Obj v__3514833_37 = makeNative(co->gc, 2, clofun94, 1, 6, v__3514829_37, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514830_37, v__3514816_37);
-Obj v__3515567_37 = PRIM_EQ(v__3514829_37, getBinding(co, packageID, 127).name);
-if (True == v__3515567_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514833_37, True);
+coraCall1(co, v__3514829_37, True);
 return;
 } else {
-Obj v__3515568_37 = PRIM_EQ(v__3514829_37, getBinding(co, packageID, 90).name);
-if (True == v__3515568_37) {
+Obj v__3515562_37 = PRIM_EQ(v__3514825_37, getBinding(co, packageID, 90).name);
+if (True == v__3515562_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514833_37, True);
+coraCall1(co, v__3514829_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514833_37, False);
+coraCall1(co, v__3514829_37, False);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514816_37);
+coraCall0(co, v__3514812_37);
 return;
 }
 }
@@ -1015,8 +1015,8 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514832_37 = R[1];
-if (True == v__3514832_37) {
+Obj v__3514828_37 = R[1];
+if (True == v__3514828_37) {
 saveCont(co, clofun94, 2, R);
 coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
 return;
@@ -1028,16 +1028,16 @@ return;
 }
 case 1:
 {
-Obj v__3515565_37= co->res;
-Obj v__3515566_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515565_37);
-coraReturn(co, v__3515566_37);
+Obj v__3515559_37= co->res;
+Obj v__3515560_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515559_37);
+coraReturn(co, v__3515560_37);
 return;
 }
 case 2:
 {
-Obj v__3515564_37= co->res;
+Obj v__3515558_37= co->res;
 saveCont(co, clofun94, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515564_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515558_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -1047,100 +1047,100 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514817_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515528_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515528_37) {
-Obj v__3515529_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515530_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3515529_37);
-if (True == v__3515530_37) {
-Obj v__3515531_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515532_37 = PRIM_ISCONS(v__3515531_37);
-if (True == v__3515532_37) {
-Obj v__3515533_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514813_37 = makeNative(co->gc, 1, clofun92, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515522_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515522_37) {
+Obj v__3515523_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515524_37 = PRIM_EQ(getBinding(co, packageID, 130).name, v__3515523_37);
+if (True == v__3515524_37) {
+Obj v__3515525_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515526_37 = PRIM_ISCONS(v__3515525_37);
+if (True == v__3515526_37) {
+Obj v__3515527_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515528_37 = PRIM_CAR(v__3515527_37);
+Obj v__3514822_37 = v__3515528_37;
+Obj v__3515529_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515530_37 = PRIM_CDR(v__3515529_37);
+Obj v__3515531_37 = PRIM_ISCONS(v__3515530_37);
+if (True == v__3515531_37) {
+Obj v__3515532_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515533_37 = PRIM_CDR(v__3515532_37);
 Obj v__3515534_37 = PRIM_CAR(v__3515533_37);
-Obj v__3514826_37 = v__3515534_37;
+Obj v__3514823_37 = v__3515534_37;
 Obj v__3515535_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3515536_37 = PRIM_CDR(v__3515535_37);
-Obj v__3515537_37 = PRIM_ISCONS(v__3515536_37);
-if (True == v__3515537_37) {
-Obj v__3515538_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515539_37 = PRIM_CDR(v__3515538_37);
-Obj v__3515540_37 = PRIM_CAR(v__3515539_37);
-Obj v__3514827_37 = v__3515540_37;
-Obj v__3515541_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515542_37 = PRIM_CDR(v__3515541_37);
-Obj v__3515543_37 = PRIM_CDR(v__3515542_37);
-Obj v__3515544_37 = PRIM_ISCONS(v__3515543_37);
-if (True == v__3515544_37) {
-Obj v__3515545_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515537_37 = PRIM_CDR(v__3515536_37);
+Obj v__3515538_37 = PRIM_ISCONS(v__3515537_37);
+if (True == v__3515538_37) {
+Obj v__3515539_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515540_37 = PRIM_CDR(v__3515539_37);
+Obj v__3515541_37 = PRIM_CDR(v__3515540_37);
+Obj v__3515542_37 = PRIM_CAR(v__3515541_37);
+Obj v__3514824_37 = v__3515542_37;
+Obj v__3515543_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515544_37 = PRIM_CDR(v__3515543_37);
+Obj v__3515545_37 = PRIM_CDR(v__3515544_37);
 Obj v__3515546_37 = PRIM_CDR(v__3515545_37);
-Obj v__3515547_37 = PRIM_CDR(v__3515546_37);
-Obj v__3515548_37 = PRIM_CAR(v__3515547_37);
-Obj v__3514828_37 = v__3515548_37;
-Obj v__3515549_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515550_37 = PRIM_CDR(v__3515549_37);
-Obj v__3515551_37 = PRIM_CDR(v__3515550_37);
-Obj v__3515552_37 = PRIM_CDR(v__3515551_37);
-Obj v__3515553_37 = PRIM_EQ(Nil, v__3515552_37);
-if (True == v__3515553_37) {
-R[1] = v__3514828_37;
-R[2] = v__3514826_37;
+Obj v__3515547_37 = PRIM_EQ(Nil, v__3515546_37);
+if (True == v__3515547_37) {
+R[1] = v__3514824_37;
+R[2] = v__3514822_37;
 saveCont(co, clofun93, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514827_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514823_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514817_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514817_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514817_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514817_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514817_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514817_37);
+coraCall0(co, v__3514813_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515556_37= co->res;
-Obj v__3515554_37 = R[1];
-Obj v__3514826_37 = R[2];
-Obj v__3515557_37 = makeCons(co->gc, v__3515556_37, Nil);
-Obj v__3515558_37 = makeCons(co->gc, v__3515554_37, v__3515557_37);
-Obj v__3515559_37 = makeCons(co->gc, v__3514826_37, v__3515558_37);
-Obj v__3515560_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515559_37);
-coraReturn(co, v__3515560_37);
+Obj v__3515550_37= co->res;
+Obj v__3515548_37 = R[1];
+Obj v__3514822_37 = R[2];
+Obj v__3515551_37 = makeCons(co->gc, v__3515550_37, Nil);
+Obj v__3515552_37 = makeCons(co->gc, v__3515548_37, v__3515551_37);
+Obj v__3515553_37 = makeCons(co->gc, v__3514822_37, v__3515552_37);
+Obj v__3515554_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515553_37);
+coraReturn(co, v__3515554_37);
 return;
 }
 case 2:
 {
-Obj v__3515554_37= co->res;
-Obj v__3514828_37 = R[1];
-Obj v__3514826_37 = R[2];
-Obj v__3515555_37 = makeCons(co->gc, v__3514826_37, closureRef(R[0], 1));
-R[1] = v__3515554_37;
-R[2] = v__3514826_37;
+Obj v__3515548_37= co->res;
+Obj v__3514824_37 = R[1];
+Obj v__3514822_37 = R[2];
+Obj v__3515549_37 = makeCons(co->gc, v__3514822_37, closureRef(R[0], 1));
+R[1] = v__3515548_37;
+R[2] = v__3514822_37;
 saveCont(co, clofun93, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515555_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514828_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), v__3515549_37, closureRef(R[0], 2), closureRef(R[0], 3), v__3514824_37);
 return;
 }
 }
@@ -1150,73 +1150,73 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514818_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515502_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3515502_37) {
-Obj v__3515503_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3515504_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515503_37);
-if (True == v__3515504_37) {
-Obj v__3515505_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515506_37 = PRIM_ISCONS(v__3515505_37);
-if (True == v__3515506_37) {
-Obj v__3515507_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3514814_37 = makeNative(co->gc, 2, clofun91, 0, 4, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515496_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3515496_37) {
+Obj v__3515497_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3515498_37 = PRIM_EQ(getBinding(co, packageID, 78).name, v__3515497_37);
+if (True == v__3515498_37) {
+Obj v__3515499_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515500_37 = PRIM_ISCONS(v__3515499_37);
+if (True == v__3515500_37) {
+Obj v__3515501_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515502_37 = PRIM_CAR(v__3515501_37);
+Obj v__3514819_37 = v__3515502_37;
+Obj v__3515503_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515504_37 = PRIM_CDR(v__3515503_37);
+Obj v__3515505_37 = PRIM_ISCONS(v__3515504_37);
+if (True == v__3515505_37) {
+Obj v__3515506_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515507_37 = PRIM_CDR(v__3515506_37);
 Obj v__3515508_37 = PRIM_CAR(v__3515507_37);
-Obj v__3514823_37 = v__3515508_37;
+Obj v__3514820_37 = v__3515508_37;
 Obj v__3515509_37 = PRIM_CDR(closureRef(R[0], 2));
 Obj v__3515510_37 = PRIM_CDR(v__3515509_37);
-Obj v__3515511_37 = PRIM_ISCONS(v__3515510_37);
-if (True == v__3515511_37) {
-Obj v__3515512_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515513_37 = PRIM_CDR(v__3515512_37);
-Obj v__3515514_37 = PRIM_CAR(v__3515513_37);
-Obj v__3514824_37 = v__3515514_37;
-Obj v__3515515_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515516_37 = PRIM_CDR(v__3515515_37);
-Obj v__3515517_37 = PRIM_CDR(v__3515516_37);
-Obj v__3515518_37 = PRIM_ISCONS(v__3515517_37);
-if (True == v__3515518_37) {
-Obj v__3515519_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515511_37 = PRIM_CDR(v__3515510_37);
+Obj v__3515512_37 = PRIM_ISCONS(v__3515511_37);
+if (True == v__3515512_37) {
+Obj v__3515513_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515514_37 = PRIM_CDR(v__3515513_37);
+Obj v__3515515_37 = PRIM_CDR(v__3515514_37);
+Obj v__3515516_37 = PRIM_CAR(v__3515515_37);
+Obj v__3514821_37 = v__3515516_37;
+Obj v__3515517_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3515518_37 = PRIM_CDR(v__3515517_37);
+Obj v__3515519_37 = PRIM_CDR(v__3515518_37);
 Obj v__3515520_37 = PRIM_CDR(v__3515519_37);
-Obj v__3515521_37 = PRIM_CDR(v__3515520_37);
-Obj v__3515522_37 = PRIM_CAR(v__3515521_37);
-Obj v__3514825_37 = v__3515522_37;
-Obj v__3515523_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3515524_37 = PRIM_CDR(v__3515523_37);
-Obj v__3515525_37 = PRIM_CDR(v__3515524_37);
-Obj v__3515526_37 = PRIM_CDR(v__3515525_37);
-Obj v__3515527_37 = PRIM_EQ(Nil, v__3515526_37);
-if (True == v__3515527_37) {
+Obj v__3515521_37 = PRIM_EQ(Nil, v__3515520_37);
+if (True == v__3515521_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514823_37, v__3514824_37, v__3514825_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 3), v__3514819_37, v__3514820_37, v__3514821_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514818_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514818_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514818_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514818_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514818_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514818_37);
+coraCall0(co, v__3514814_37);
 return;
 }
 }
@@ -1227,81 +1227,81 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514819_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
-Obj v__3515478_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515478_37) {
-Obj v__3515479_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515480_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3515479_37);
-if (True == v__3515480_37) {
-Obj v__3515481_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515482_37 = PRIM_ISCONS(v__3515481_37);
-if (True == v__3515482_37) {
-Obj v__3515483_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514815_37 = makeNative(co->gc, 1, clofun90, 0, 4, closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 0));
+Obj v__3515472_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515472_37) {
+Obj v__3515473_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515474_37 = PRIM_EQ(getBinding(co, packageID, 134).name, v__3515473_37);
+if (True == v__3515474_37) {
+Obj v__3515475_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515476_37 = PRIM_ISCONS(v__3515475_37);
+if (True == v__3515476_37) {
+Obj v__3515477_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515478_37 = PRIM_CAR(v__3515477_37);
+Obj v__3514816_37 = v__3515478_37;
+Obj v__3515479_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515480_37 = PRIM_CDR(v__3515479_37);
+Obj v__3515481_37 = PRIM_ISCONS(v__3515480_37);
+if (True == v__3515481_37) {
+Obj v__3515482_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515483_37 = PRIM_CDR(v__3515482_37);
 Obj v__3515484_37 = PRIM_CAR(v__3515483_37);
-Obj v__3514820_37 = v__3515484_37;
+Obj v__3514817_37 = v__3515484_37;
 Obj v__3515485_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3515486_37 = PRIM_CDR(v__3515485_37);
-Obj v__3515487_37 = PRIM_ISCONS(v__3515486_37);
-if (True == v__3515487_37) {
-Obj v__3515488_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515489_37 = PRIM_CDR(v__3515488_37);
-Obj v__3515490_37 = PRIM_CAR(v__3515489_37);
-Obj v__3514821_37 = v__3515490_37;
-Obj v__3515491_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515492_37 = PRIM_CDR(v__3515491_37);
-Obj v__3515493_37 = PRIM_CDR(v__3515492_37);
-Obj v__3515494_37 = PRIM_EQ(Nil, v__3515493_37);
-if (True == v__3515494_37) {
-R[1] = v__3514821_37;
+Obj v__3515487_37 = PRIM_CDR(v__3515486_37);
+Obj v__3515488_37 = PRIM_EQ(Nil, v__3515487_37);
+if (True == v__3515488_37) {
+R[1] = v__3514817_37;
 saveCont(co, clofun91, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514820_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514816_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514819_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514819_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514819_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514819_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514819_37);
+coraCall0(co, v__3514815_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515498_37= co->res;
-Obj v__3515497_37 = R[1];
-Obj v__3515499_37 = makeCons(co->gc, v__3515498_37, Nil);
-Obj v__3515500_37 = makeCons(co->gc, v__3515497_37, v__3515499_37);
-Obj v__3515501_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515500_37);
-coraReturn(co, v__3515501_37);
+Obj v__3515492_37= co->res;
+Obj v__3515491_37 = R[1];
+Obj v__3515493_37 = makeCons(co->gc, v__3515492_37, Nil);
+Obj v__3515494_37 = makeCons(co->gc, v__3515491_37, v__3515493_37);
+Obj v__3515495_37 = makeCons(co->gc, getBinding(co, packageID, 68).name, v__3515494_37);
+coraReturn(co, v__3515495_37);
 return;
 }
 case 2:
 {
-Obj v__3515495_37= co->res;
-Obj v__3514821_37 = R[1];
-Obj v__3514822_37 = v__3515495_37;
-Obj v__3515496_37 = makeCons(co->gc, v__3514822_37, Nil);
-Obj v__3515497_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515496_37);
-R[1] = v__3515497_37;
+Obj v__3515489_37= co->res;
+Obj v__3514817_37 = R[1];
+Obj v__3514818_37 = v__3515489_37;
+Obj v__3515490_37 = makeCons(co->gc, v__3514818_37, Nil);
+Obj v__3515491_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515490_37);
+R[1] = v__3515491_37;
 saveCont(co, clofun91, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514821_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3514817_37);
 return;
 }
 }
@@ -1317,9 +1317,9 @@ return;
 }
 case 1:
 {
-Obj v__3515477_37= co->res;
+Obj v__3515471_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515477_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), v__3515471_37, closureRef(R[0], 3));
 return;
 }
 }
@@ -1329,23 +1329,23 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514663_37 = R[1];
+Obj v__3514661_37 = R[1];
 saveCont(co, clofun89, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514663_37, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3514661_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 case 1:
 {
-Obj v__3515471_37= co->res;
-Obj v__3515472_37 = primNot(v__3515471_37);
-coraReturn(co, v__3515472_37);
+Obj v__3515465_37= co->res;
+Obj v__3515466_37 = primNot(v__3515465_37);
+coraReturn(co, v__3515466_37);
 return;
 }
 case 2:
 {
-Obj v__3515470_37= co->res;
+Obj v__3515464_37= co->res;
 saveCont(co, clofun89, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515470_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515464_37);
 return;
 }
 }
@@ -1355,44 +1355,44 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514653_37 = R[1];
-Obj v__3514654_37 = R[2];
-Obj v__3515455_37 = PRIM_EQ(Nil, v__3514654_37);
-if (True == v__3515455_37) {
+Obj v__3514651_37 = R[1];
+Obj v__3514652_37 = R[2];
+Obj v__3515449_37 = PRIM_EQ(Nil, v__3514652_37);
+if (True == v__3515449_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3514806_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3514654_37, v__3514653_37);
-Obj v__3515459_37 = PRIM_ISCONS(v__3514654_37);
-if (True == v__3515459_37) {
-Obj v__3515460_37 = PRIM_CAR(v__3514654_37);
-Obj v__3515461_37 = PRIM_ISCONS(v__3515460_37);
+Obj v__3514802_37 = makeNative(co->gc, 1, clofun87, 0, 2, v__3514652_37, v__3514651_37);
+Obj v__3515453_37 = PRIM_ISCONS(v__3514652_37);
+if (True == v__3515453_37) {
+Obj v__3515454_37 = PRIM_CAR(v__3514652_37);
+Obj v__3515455_37 = PRIM_ISCONS(v__3515454_37);
+if (True == v__3515455_37) {
+Obj v__3515456_37 = PRIM_CAR(v__3514652_37);
+Obj v__3515457_37 = PRIM_CAR(v__3515456_37);
+Obj v__3514804_37 = v__3515457_37;
+Obj v__3515458_37 = PRIM_CAR(v__3514652_37);
+Obj v__3515459_37 = PRIM_CDR(v__3515458_37);
+Obj v__3514805_37 = v__3515459_37;
+Obj v__3515460_37 = PRIM_CDR(v__3514652_37);
+Obj v__3515461_37 = PRIM_EQ(v__3514651_37, v__3514804_37);
 if (True == v__3515461_37) {
-Obj v__3515462_37 = PRIM_CAR(v__3514654_37);
-Obj v__3515463_37 = PRIM_CAR(v__3515462_37);
-Obj v__3514808_37 = v__3515463_37;
-Obj v__3515464_37 = PRIM_CAR(v__3514654_37);
-Obj v__3515465_37 = PRIM_CDR(v__3515464_37);
-Obj v__3514809_37 = v__3515465_37;
-Obj v__3515466_37 = PRIM_CDR(v__3514654_37);
-Obj v__3515467_37 = PRIM_EQ(v__3514653_37, v__3514808_37);
-if (True == v__3515467_37) {
-Obj v__3515468_37 = makeCons(co->gc, v__3514808_37, v__3514809_37);
-coraReturn(co, v__3515468_37);
+Obj v__3515462_37 = makeCons(co->gc, v__3514804_37, v__3514805_37);
+coraReturn(co, v__3515462_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514806_37);
+coraCall0(co, v__3514802_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514806_37);
+coraCall0(co, v__3514802_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514806_37);
+coraCall0(co, v__3514802_37);
 return;
 }
 }
@@ -1404,13 +1404,13 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515456_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515456_37) {
-Obj v__3515457_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515458_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514807_37 = v__3515458_37;
+Obj v__3515450_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515450_37) {
+Obj v__3515451_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515452_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514803_37 = v__3515452_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514807_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 1), v__3514803_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -1425,27 +1425,27 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514644_37 = R[1];
-Obj v__3514645_37 = R[2];
-Obj v__3514646_37 = R[3];
-Obj v__3515374_37 = PRIM_EQ(Nil, v__3514646_37);
-if (True == v__3515374_37) {
+Obj v__3514642_37 = R[1];
+Obj v__3514643_37 = R[2];
+Obj v__3514644_37 = R[3];
+Obj v__3515368_37 = PRIM_EQ(Nil, v__3514644_37);
+if (True == v__3515368_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514644_37, v__3514645_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 76)), v__3514642_37, v__3514643_37);
 return;
 } else {
-Obj v__3515375_37 = PRIM_ISCONS(v__3514646_37);
-if (True == v__3515375_37) {
-Obj v__3515376_37 = PRIM_CAR(v__3514646_37);
-Obj v__3514803_37 = v__3515376_37;
-Obj v__3515377_37 = PRIM_CDR(v__3514646_37);
-Obj v__3514804_37 = v__3515377_37;
-R[1] = v__3514803_37;
-R[2] = v__3514644_37;
-R[3] = v__3514645_37;
-R[4] = v__3514804_37;
+Obj v__3515369_37 = PRIM_ISCONS(v__3514644_37);
+if (True == v__3515369_37) {
+Obj v__3515370_37 = PRIM_CAR(v__3514644_37);
+Obj v__3514799_37 = v__3515370_37;
+Obj v__3515371_37 = PRIM_CDR(v__3514644_37);
+Obj v__3514800_37 = v__3515371_37;
+R[1] = v__3514799_37;
+R[2] = v__3514642_37;
+R[3] = v__3514643_37;
+R[4] = v__3514800_37;
 saveCont(co, clofun86, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514803_37, makeCString(co->gc, "#*ns-export*"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514799_37, makeCString(co->gc, "#*ns-export*"));
 return;
 } else {
 co->ctx.sp = R;
@@ -1456,90 +1456,90 @@ return;
 }
 case 1:
 {
-Obj v__3515384_37= co->res;
+Obj v__3515378_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515384_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515378_37);
 return;
 }
 case 2:
 {
-Obj v__3515383_37= co->res;
-Obj v__3514803_37 = R[1];
+Obj v__3515377_37= co->res;
+Obj v__3514799_37 = R[1];
 saveCont(co, clofun86, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514803_37, v__3515383_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514799_37, v__3515377_37);
 return;
 }
 case 3:
 {
-Obj v__3515382_37= co->res;
-Obj v__3514803_37 = R[1];
-R[1] = v__3514803_37;
+Obj v__3515376_37= co->res;
+Obj v__3514799_37 = R[1];
+R[1] = v__3514799_37;
 saveCont(co, clofun86, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515382_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515376_37);
 return;
 }
 case 4:
 {
-Obj v__3515381_37= co->res;
-Obj v__3514803_37 = R[1];
-Obj v__3514644_37 = R[2];
-Obj v__3514645_37 = R[3];
-Obj v__3514804_37 = R[4];
-if (True == v__3515381_37) {
-R[1] = v__3514803_37;
+Obj v__3515375_37= co->res;
+Obj v__3514799_37 = R[1];
+Obj v__3514642_37 = R[2];
+Obj v__3514643_37 = R[3];
+Obj v__3514800_37 = R[4];
+if (True == v__3515375_37) {
+R[1] = v__3514799_37;
 saveCont(co, clofun86, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514644_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514642_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514644_37, v__3514645_37, v__3514804_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 71)), v__3514642_37, v__3514643_37, v__3514800_37);
 return;
 }
 }
 case 5:
 {
-Obj v__3515380_37= co->res;
-Obj v__3514803_37 = R[1];
-Obj v__3514644_37 = R[2];
-Obj v__3514645_37 = R[3];
-Obj v__3514804_37 = R[4];
-Obj v__3514805_37 = v__3515380_37;
-R[1] = v__3514803_37;
-R[2] = v__3514644_37;
-R[3] = v__3514645_37;
-R[4] = v__3514804_37;
+Obj v__3515374_37= co->res;
+Obj v__3514799_37 = R[1];
+Obj v__3514642_37 = R[2];
+Obj v__3514643_37 = R[3];
+Obj v__3514800_37 = R[4];
+Obj v__3514801_37 = v__3515374_37;
+R[1] = v__3514799_37;
+R[2] = v__3514642_37;
+R[3] = v__3514643_37;
+R[4] = v__3514800_37;
 saveCont(co, clofun86, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514644_37, v__3514805_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514642_37, v__3514801_37);
 return;
 }
 case 6:
 {
-Obj v__3515379_37= co->res;
-Obj v__3514803_37 = R[1];
-Obj v__3514644_37 = R[2];
-Obj v__3514645_37 = R[3];
-Obj v__3514804_37 = R[4];
-R[1] = v__3514803_37;
-R[2] = v__3514644_37;
-R[3] = v__3514645_37;
-R[4] = v__3514804_37;
+Obj v__3515373_37= co->res;
+Obj v__3514799_37 = R[1];
+Obj v__3514642_37 = R[2];
+Obj v__3514643_37 = R[3];
+Obj v__3514800_37 = R[4];
+R[1] = v__3514799_37;
+R[2] = v__3514642_37;
+R[3] = v__3514643_37;
+R[4] = v__3514800_37;
 saveCont(co, clofun86, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515379_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3515373_37, Nil);
 return;
 }
 case 7:
 {
-Obj v__3515378_37= co->res;
-Obj v__3514803_37 = R[1];
-Obj v__3514644_37 = R[2];
-Obj v__3514645_37 = R[3];
-Obj v__3514804_37 = R[4];
-R[1] = v__3514803_37;
-R[2] = v__3514644_37;
-R[3] = v__3514645_37;
-R[4] = v__3514804_37;
+Obj v__3515372_37= co->res;
+Obj v__3514799_37 = R[1];
+Obj v__3514642_37 = R[2];
+Obj v__3514643_37 = R[3];
+Obj v__3514800_37 = R[4];
+R[1] = v__3514799_37;
+R[2] = v__3514642_37;
+R[3] = v__3514643_37;
+R[4] = v__3514800_37;
 saveCont(co, clofun86, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515378_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515372_37);
 return;
 }
 }
@@ -1549,56 +1549,56 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514642_37 = R[1];
-Obj v__3514643_37 = R[2];
-Obj v__3515368_37 = PRIM_EQ(v__3514643_37, makeCString(co->gc, ""));
-if (True == v__3515368_37) {
-coraReturn(co, v__3514642_37);
+Obj v__3514640_37 = R[1];
+Obj v__3514641_37 = R[2];
+Obj v__3515362_37 = PRIM_EQ(v__3514641_37, makeCString(co->gc, ""));
+if (True == v__3515362_37) {
+coraReturn(co, v__3514640_37);
 return;
 } else {
-R[1] = v__3514642_37;
-R[2] = v__3514643_37;
+R[1] = v__3514640_37;
+R[2] = v__3514641_37;
 saveCont(co, clofun85, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3514640_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515372_37= co->res;
+Obj v__3515366_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515372_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 74)), v__3515366_37);
 return;
 }
 case 2:
 {
-Obj v__3515371_37= co->res;
-Obj v__3514643_37 = R[1];
+Obj v__3515365_37= co->res;
+Obj v__3514641_37 = R[1];
 saveCont(co, clofun85, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514643_37, v__3515371_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), v__3514641_37, v__3515365_37);
 return;
 }
 case 3:
 {
-Obj v__3515370_37= co->res;
-Obj v__3514643_37 = R[1];
-R[1] = v__3514643_37;
+Obj v__3515364_37= co->res;
+Obj v__3514641_37 = R[1];
+R[1] = v__3514641_37;
 saveCont(co, clofun85, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515370_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 73)), makeCString(co->gc, "#"), v__3515364_37);
 return;
 }
 case 4:
 {
-Obj v__3515369_37= co->res;
-Obj v__3514642_37 = R[1];
-Obj v__3514643_37 = R[2];
-if (True == v__3515369_37) {
-coraReturn(co, v__3514642_37);
+Obj v__3515363_37= co->res;
+Obj v__3514640_37 = R[1];
+Obj v__3514641_37 = R[2];
+if (True == v__3515363_37) {
+coraReturn(co, v__3514640_37);
 return;
 } else {
-R[1] = v__3514643_37;
+R[1] = v__3514641_37;
 saveCont(co, clofun85, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514642_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 72)), v__3514640_37);
 return;
 }
 }
@@ -1609,37 +1609,37 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514636_37 = R[1];
-R[1] = v__3514636_37;
+Obj v__3514634_37 = R[1];
+R[1] = v__3514634_37;
 saveCont(co, clofun84, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514636_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514634_37);
 return;
 }
 case 1:
 {
-Obj v__3515350_37= co->res;
-Obj v__3514802_37 = R[1];
+Obj v__3515344_37= co->res;
+Obj v__3514798_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3515350_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3514802_37));
+coraCall1(co, v__3515344_37, makeNative(co->gc, 4, clofun83, 3, 1, v__3514798_37));
 return;
 }
 case 2:
 {
-Obj v__3515349_37= co->res;
-Obj v__3514802_37 = R[1];
-R[1] = v__3514802_37;
+Obj v__3515343_37= co->res;
+Obj v__3514798_37 = R[1];
+R[1] = v__3514798_37;
 saveCont(co, clofun84, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515349_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 80)), v__3515343_37);
 return;
 }
 case 3:
 {
-Obj v__3515348_37= co->res;
-Obj v__3514636_37 = R[1];
-Obj v__3514802_37 = v__3515348_37;
-R[1] = v__3514802_37;
+Obj v__3515342_37= co->res;
+Obj v__3514634_37 = R[1];
+Obj v__3514798_37 = v__3515342_37;
+R[1] = v__3514798_37;
 saveCont(co, clofun84, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514636_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514634_37);
 return;
 }
 }
@@ -1649,44 +1649,44 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514638_37 = R[1];
-Obj v__3514639_37 = R[2];
-Obj v__3514640_37 = R[3];
-Obj v__3515351_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514638_37);
-R[1] = v__3514639_37;
-R[2] = v__3514640_37;
-R[3] = v__3515351_37;
+Obj v__3514636_37 = R[1];
+Obj v__3514637_37 = R[2];
+Obj v__3514638_37 = R[3];
+Obj v__3515345_37 = makeCons(co->gc, makeCString(co->gc, "cora/init"), v__3514636_37);
+R[1] = v__3514637_37;
+R[2] = v__3514638_37;
+R[3] = v__3515345_37;
 saveCont(co, clofun83, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v__3514638_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun82, 1, 0), v__3514636_37);
 return;
 }
 case 1:
 {
-Obj v__3515361_37= co->res;
-Obj v__3515351_37 = R[1];
-Obj v__3515362_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515361_37);
-Obj v__3515363_37 = makeCons(co->gc, v__3515362_37, Nil);
-Obj v__3515364_37 = makeCons(co->gc, v__3515351_37, v__3515363_37);
-Obj v__3515365_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515364_37);
-Obj v__3515366_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515365_37);
-coraReturn(co, v__3515366_37);
+Obj v__3515355_37= co->res;
+Obj v__3515345_37 = R[1];
+Obj v__3515356_37 = makeCons(co->gc, getBinding(co, packageID, 89).name, v__3515355_37);
+Obj v__3515357_37 = makeCons(co->gc, v__3515356_37, Nil);
+Obj v__3515358_37 = makeCons(co->gc, v__3515345_37, v__3515357_37);
+Obj v__3515359_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515358_37);
+Obj v__3515360_37 = makeCons(co->gc, getBinding(co, packageID, 78).name, v__3515359_37);
+coraReturn(co, v__3515360_37);
 return;
 }
 case 2:
 {
-Obj v__3515354_37= co->res;
-Obj v__3514639_37 = R[1];
-Obj v__3514640_37 = R[2];
-Obj v__3515351_37 = R[3];
-Obj v__3515355_37 = makeCons(co->gc, v__3514639_37, Nil);
-Obj v__3515356_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515355_37);
-Obj v__3515357_37 = makeCons(co->gc, v__3515356_37, Nil);
-Obj v__3515358_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515357_37);
-Obj v__3515359_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515358_37);
-Obj v__3515360_37 = makeCons(co->gc, v__3515359_37, v__3514640_37);
-R[1] = v__3515351_37;
+Obj v__3515348_37= co->res;
+Obj v__3514637_37 = R[1];
+Obj v__3514638_37 = R[2];
+Obj v__3515345_37 = R[3];
+Obj v__3515349_37 = makeCons(co->gc, v__3514637_37, Nil);
+Obj v__3515350_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3515349_37);
+Obj v__3515351_37 = makeCons(co->gc, v__3515350_37, Nil);
+Obj v__3515352_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3515351_37);
+Obj v__3515353_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3515352_37);
+Obj v__3515354_37 = makeCons(co->gc, v__3515353_37, v__3514638_37);
+R[1] = v__3515345_37;
 saveCont(co, clofun83, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515354_37, v__3515360_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515348_37, v__3515354_37);
 return;
 }
 }
@@ -1696,10 +1696,10 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514641_37 = R[1];
-Obj v__3515352_37 = makeCons(co->gc, v__3514641_37, Nil);
-Obj v__3515353_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515352_37);
-coraReturn(co, v__3515353_37);
+Obj v__3514639_37 = R[1];
+Obj v__3515346_37 = makeCons(co->gc, v__3514639_37, Nil);
+Obj v__3515347_37 = makeCons(co->gc, getBinding(co, packageID, 81).name, v__3515346_37);
+coraReturn(co, v__3515347_37);
 return;
 }
 }
@@ -1709,10 +1709,10 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514634_37 = R[1];
-Obj v__3514635_37 = R[2];
+Obj v__3514632_37 = R[1];
+Obj v__3514633_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514634_37, Nil, Nil, v__3514635_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514632_37, Nil, Nil, v__3514633_37);
 return;
 }
 }
@@ -1722,62 +1722,62 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514624_37 = R[1];
-Obj v__3514625_37 = R[2];
-Obj v__3514626_37 = R[3];
-Obj v__3514627_37 = R[4];
-Obj v__3514796_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3514626_37, v__3514624_37, v__3514625_37, v__3514627_37);
-Obj v__3515328_37 = PRIM_ISCONS(v__3514624_37);
-if (True == v__3515328_37) {
-Obj v__3515329_37 = PRIM_CAR(v__3514624_37);
+Obj v__3514622_37 = R[1];
+Obj v__3514623_37 = R[2];
+Obj v__3514624_37 = R[3];
+Obj v__3514625_37 = R[4];
+Obj v__3514792_37 = makeNative(co->gc, 1, clofun79, 0, 4, v__3514624_37, v__3514622_37, v__3514623_37, v__3514625_37);
+Obj v__3515322_37 = PRIM_ISCONS(v__3514622_37);
+if (True == v__3515322_37) {
+Obj v__3515323_37 = PRIM_CAR(v__3514622_37);
+Obj v__3515324_37 = PRIM_ISCONS(v__3515323_37);
+if (True == v__3515324_37) {
+Obj v__3515325_37 = PRIM_CAR(v__3514622_37);
+Obj v__3515326_37 = PRIM_CAR(v__3515325_37);
+Obj v__3515327_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515326_37);
+if (True == v__3515327_37) {
+Obj v__3515328_37 = PRIM_CAR(v__3514622_37);
+Obj v__3515329_37 = PRIM_CDR(v__3515328_37);
 Obj v__3515330_37 = PRIM_ISCONS(v__3515329_37);
 if (True == v__3515330_37) {
-Obj v__3515331_37 = PRIM_CAR(v__3514624_37);
-Obj v__3515332_37 = PRIM_CAR(v__3515331_37);
-Obj v__3515333_37 = PRIM_EQ(getBinding(co, packageID, 81).name, v__3515332_37);
-if (True == v__3515333_37) {
-Obj v__3515334_37 = PRIM_CAR(v__3514624_37);
+Obj v__3515331_37 = PRIM_CAR(v__3514622_37);
+Obj v__3515332_37 = PRIM_CDR(v__3515331_37);
+Obj v__3515333_37 = PRIM_CAR(v__3515332_37);
+Obj v__3514796_37 = v__3515333_37;
+Obj v__3515334_37 = PRIM_CAR(v__3514622_37);
 Obj v__3515335_37 = PRIM_CDR(v__3515334_37);
-Obj v__3515336_37 = PRIM_ISCONS(v__3515335_37);
-if (True == v__3515336_37) {
-Obj v__3515337_37 = PRIM_CAR(v__3514624_37);
-Obj v__3515338_37 = PRIM_CDR(v__3515337_37);
-Obj v__3515339_37 = PRIM_CAR(v__3515338_37);
-Obj v__3514800_37 = v__3515339_37;
-Obj v__3515340_37 = PRIM_CAR(v__3514624_37);
-Obj v__3515341_37 = PRIM_CDR(v__3515340_37);
-Obj v__3515342_37 = PRIM_CDR(v__3515341_37);
-Obj v__3515343_37 = PRIM_EQ(Nil, v__3515342_37);
-if (True == v__3515343_37) {
-Obj v__3515344_37 = PRIM_CDR(v__3514624_37);
-Obj v__3514801_37 = v__3515344_37;
-Obj v__3515345_37 = makeCons(co->gc, v__3514800_37, v__3514625_37);
+Obj v__3515336_37 = PRIM_CDR(v__3515335_37);
+Obj v__3515337_37 = PRIM_EQ(Nil, v__3515336_37);
+if (True == v__3515337_37) {
+Obj v__3515338_37 = PRIM_CDR(v__3514622_37);
+Obj v__3514797_37 = v__3515338_37;
+Obj v__3515339_37 = makeCons(co->gc, v__3514796_37, v__3514623_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514801_37, v__3515345_37, v__3514626_37, v__3514627_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514797_37, v__3515339_37, v__3514624_37, v__3514625_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514796_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514796_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514796_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514796_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514796_37);
+coraCall0(co, v__3514792_37);
 return;
 }
 }
@@ -1788,37 +1788,37 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514797_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3515319_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3515319_37) {
-Obj v__3515320_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515321_37 = PRIM_ISCONS(v__3515320_37);
-if (True == v__3515321_37) {
-Obj v__3515322_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515323_37 = PRIM_CAR(v__3515322_37);
-Obj v__3515324_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515323_37);
-if (True == v__3515324_37) {
-Obj v__3515325_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3515326_37 = PRIM_CDR(v__3515325_37);
-Obj v__3514798_37 = v__3515326_37;
-Obj v__3515327_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3514799_37 = v__3515327_37;
+Obj v__3514793_37 = makeNative(co->gc, 1, clofun78, 0, 4, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3515313_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3515313_37) {
+Obj v__3515314_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515315_37 = PRIM_ISCONS(v__3515314_37);
+if (True == v__3515315_37) {
+Obj v__3515316_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515317_37 = PRIM_CAR(v__3515316_37);
+Obj v__3515318_37 = PRIM_EQ(getBinding(co, packageID, 82).name, v__3515317_37);
+if (True == v__3515318_37) {
+Obj v__3515319_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3515320_37 = PRIM_CDR(v__3515319_37);
+Obj v__3514794_37 = v__3515320_37;
+Obj v__3515321_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3514795_37 = v__3515321_37;
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514799_37, closureRef(R[0], 2), v__3514798_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 83)), v__3514795_37, closureRef(R[0], 2), v__3514794_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514797_37);
+coraCall0(co, v__3514793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514797_37);
+coraCall0(co, v__3514793_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514797_37);
+coraCall0(co, v__3514793_37);
 return;
 }
 }
@@ -1835,9 +1835,9 @@ return;
 }
 case 1:
 {
-Obj v__3515318_37= co->res;
+Obj v__3515312_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, closureRef(R[0], 0), v__3515318_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall3(co, closureRef(R[0], 0), v__3515312_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 }
 }
@@ -1847,27 +1847,27 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514623_37 = R[1];
-R[1] = v__3514623_37;
+Obj v__3514621_37 = R[1];
+R[1] = v__3514621_37;
 saveCont(co, clofun77, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514621_37);
 return;
 }
 case 1:
 {
-Obj v__3515316_37= co->res;
-Obj v__3515315_37 = R[1];
+Obj v__3515310_37= co->res;
+Obj v__3515309_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515315_37, v__3515316_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3515309_37, v__3515310_37);
 return;
 }
 case 2:
 {
-Obj v__3515315_37= co->res;
-Obj v__3514623_37 = R[1];
-R[1] = v__3515315_37;
+Obj v__3515309_37= co->res;
+Obj v__3514621_37 = R[1];
+R[1] = v__3515309_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514623_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514621_37);
 return;
 }
 }
@@ -1877,67 +1877,67 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514621_37 = R[1];
-Obj v__3514622_37 = R[2];
-R[1] = v__3514622_37;
-R[2] = v__3514621_37;
+Obj v__3514619_37 = R[1];
+Obj v__3514620_37 = R[2];
+R[1] = v__3514620_37;
+R[2] = v__3514619_37;
 saveCont(co, clofun76, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514622_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514620_37);
 return;
 }
 case 1:
 {
-Obj v__3515304_37= co->res;
-Obj v__3515303_37 = R[1];
-Obj v__3514621_37 = R[2];
-Obj v__3515305_37 = makeCons(co->gc, v__3515304_37, Nil);
-Obj v__3515306_37 = makeCons(co->gc, v__3515303_37, v__3515305_37);
-Obj v__3515307_37 = makeCons(co->gc, v__3514621_37, v__3515306_37);
-coraReturn(co, v__3515307_37);
+Obj v__3515298_37= co->res;
+Obj v__3515297_37 = R[1];
+Obj v__3514619_37 = R[2];
+Obj v__3515299_37 = makeCons(co->gc, v__3515298_37, Nil);
+Obj v__3515300_37 = makeCons(co->gc, v__3515297_37, v__3515299_37);
+Obj v__3515301_37 = makeCons(co->gc, v__3514619_37, v__3515300_37);
+coraReturn(co, v__3515301_37);
 return;
 }
 case 2:
 {
-Obj v__3515310_37= co->res;
-Obj v__3515308_37 = R[1];
-Obj v__3514621_37 = R[2];
-Obj v__3515311_37 = makeCons(co->gc, v__3515310_37, Nil);
-Obj v__3515312_37 = makeCons(co->gc, v__3515308_37, v__3515311_37);
-Obj v__3515313_37 = makeCons(co->gc, v__3514621_37, v__3515312_37);
-coraReturn(co, v__3515313_37);
+Obj v__3515304_37= co->res;
+Obj v__3515302_37 = R[1];
+Obj v__3514619_37 = R[2];
+Obj v__3515305_37 = makeCons(co->gc, v__3515304_37, Nil);
+Obj v__3515306_37 = makeCons(co->gc, v__3515302_37, v__3515305_37);
+Obj v__3515307_37 = makeCons(co->gc, v__3514619_37, v__3515306_37);
+coraReturn(co, v__3515307_37);
 return;
 }
 case 3:
 {
-Obj v__3515302_37= co->res;
-Obj v__3514622_37 = R[1];
-Obj v__3514621_37 = R[2];
-if (True == v__3515302_37) {
-Obj v__3515303_37 = PRIM_CAR(v__3514622_37);
-R[1] = v__3515303_37;
-R[2] = v__3514621_37;
+Obj v__3515296_37= co->res;
+Obj v__3514620_37 = R[1];
+Obj v__3514619_37 = R[2];
+if (True == v__3515296_37) {
+Obj v__3515297_37 = PRIM_CAR(v__3514620_37);
+R[1] = v__3515297_37;
+R[2] = v__3514619_37;
 saveCont(co, clofun76, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514622_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514620_37);
 return;
 } else {
-Obj v__3515308_37 = PRIM_CAR(v__3514622_37);
-Obj v__3515309_37 = PRIM_CDR(v__3514622_37);
-R[1] = v__3515308_37;
-R[2] = v__3514621_37;
+Obj v__3515302_37 = PRIM_CAR(v__3514620_37);
+Obj v__3515303_37 = PRIM_CDR(v__3514620_37);
+R[1] = v__3515302_37;
+R[2] = v__3514619_37;
 saveCont(co, clofun76, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514621_37, v__3515309_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 85)), v__3514619_37, v__3515303_37);
 return;
 }
 }
 case 4:
 {
-Obj v__3515301_37= co->res;
-Obj v__3514622_37 = R[1];
-Obj v__3514621_37 = R[2];
-R[1] = v__3514622_37;
-R[2] = v__3514621_37;
+Obj v__3515295_37= co->res;
+Obj v__3514620_37 = R[1];
+Obj v__3514619_37 = R[2];
+R[1] = v__3514620_37;
+R[2] = v__3514619_37;
 saveCont(co, clofun76, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515301_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515295_37);
 return;
 }
 }
@@ -1947,16 +1947,16 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514620_37 = R[1];
+Obj v__3514618_37 = R[1];
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514620_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514618_37);
 return;
 }
 case 1:
 {
-Obj v__3515299_37= co->res;
+Obj v__3515293_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515299_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3515293_37);
 return;
 }
 }
@@ -1966,50 +1966,50 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514611_37 = R[1];
-Obj v__3515279_37 = primIsSymbol(v__3514611_37);
-if (True == v__3515279_37) {
-Obj v__3515280_37 = makeCons(co->gc, v__3514611_37, Nil);
-Obj v__3515281_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515280_37);
-coraReturn(co, v__3515281_37);
+Obj v__3514609_37 = R[1];
+Obj v__3515273_37 = primIsSymbol(v__3514609_37);
+if (True == v__3515273_37) {
+Obj v__3515274_37 = makeCons(co->gc, v__3514609_37, Nil);
+Obj v__3515275_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3515274_37);
+coraReturn(co, v__3515275_37);
 return;
 } else {
-Obj v__3514792_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3514611_37);
-Obj v__3515288_37 = PRIM_ISCONS(v__3514611_37);
-if (True == v__3515288_37) {
-Obj v__3515289_37 = PRIM_CAR(v__3514611_37);
-Obj v__3515290_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515289_37);
-if (True == v__3515290_37) {
-Obj v__3515291_37 = PRIM_CDR(v__3514611_37);
-Obj v__3515292_37 = PRIM_ISCONS(v__3515291_37);
-if (True == v__3515292_37) {
-Obj v__3515293_37 = PRIM_CDR(v__3514611_37);
-Obj v__3515294_37 = PRIM_CAR(v__3515293_37);
-Obj v__3514795_37 = v__3515294_37;
-Obj v__3515295_37 = PRIM_CDR(v__3514611_37);
-Obj v__3515296_37 = PRIM_CDR(v__3515295_37);
-Obj v__3515297_37 = PRIM_EQ(Nil, v__3515296_37);
-if (True == v__3515297_37) {
-coraReturn(co, v__3514795_37);
+Obj v__3514788_37 = makeNative(co->gc, 1, clofun73, 0, 1, v__3514609_37);
+Obj v__3515282_37 = PRIM_ISCONS(v__3514609_37);
+if (True == v__3515282_37) {
+Obj v__3515283_37 = PRIM_CAR(v__3514609_37);
+Obj v__3515284_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3515283_37);
+if (True == v__3515284_37) {
+Obj v__3515285_37 = PRIM_CDR(v__3514609_37);
+Obj v__3515286_37 = PRIM_ISCONS(v__3515285_37);
+if (True == v__3515286_37) {
+Obj v__3515287_37 = PRIM_CDR(v__3514609_37);
+Obj v__3515288_37 = PRIM_CAR(v__3515287_37);
+Obj v__3514791_37 = v__3515288_37;
+Obj v__3515289_37 = PRIM_CDR(v__3514609_37);
+Obj v__3515290_37 = PRIM_CDR(v__3515289_37);
+Obj v__3515291_37 = PRIM_EQ(Nil, v__3515290_37);
+if (True == v__3515291_37) {
+coraReturn(co, v__3514791_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514792_37);
+coraCall0(co, v__3514788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514792_37);
+coraCall0(co, v__3514788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514792_37);
+coraCall0(co, v__3514788_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514792_37);
+coraCall0(co, v__3514788_37);
 return;
 }
 }
@@ -2021,15 +2021,15 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515282_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515282_37) {
-Obj v__3515283_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514793_37 = v__3515283_37;
-Obj v__3515284_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514794_37 = v__3515284_37;
-Obj v__3515285_37 = makeCons(co->gc, v__3514793_37, v__3514794_37);
+Obj v__3515276_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515276_37) {
+Obj v__3515277_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514789_37 = v__3515277_37;
+Obj v__3515278_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514790_37 = v__3515278_37;
+Obj v__3515279_37 = makeCons(co->gc, v__3514789_37, v__3514790_37);
 saveCont(co, clofun73, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3515285_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 88)), v__3515279_37);
 return;
 } else {
 coraReturn(co, closureRef(R[0], 0));
@@ -2038,9 +2038,9 @@ return;
 }
 case 1:
 {
-Obj v__3515286_37= co->res;
-Obj v__3515287_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515286_37);
-coraReturn(co, v__3515287_37);
+Obj v__3515280_37= co->res;
+Obj v__3515281_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515280_37);
+coraReturn(co, v__3515281_37);
 return;
 }
 }
@@ -2050,10 +2050,10 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514610_37 = R[1];
-Obj v__3515277_37 = PRIM_CDR(v__3514610_37);
+Obj v__3514608_37 = R[1];
+Obj v__3515271_37 = PRIM_CDR(v__3514608_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515277_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3515271_37);
 return;
 }
 }
@@ -2063,25 +2063,25 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514602_37 = R[1];
-Obj v__3514785_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3514602_37);
-Obj v__3515272_37 = PRIM_ISCONS(v__3514602_37);
-if (True == v__3515272_37) {
-Obj v__3515273_37 = PRIM_CAR(v__3514602_37);
-Obj v__3514791_37 = v__3515273_37;
-Obj v__3515274_37 = PRIM_CDR(v__3514602_37);
-Obj v__3515275_37 = PRIM_EQ(Nil, v__3515274_37);
-if (True == v__3515275_37) {
-coraReturn(co, v__3514791_37);
+Obj v__3514600_37 = R[1];
+Obj v__3514781_37 = makeNative(co->gc, 1, clofun70, 0, 1, v__3514600_37);
+Obj v__3515266_37 = PRIM_ISCONS(v__3514600_37);
+if (True == v__3515266_37) {
+Obj v__3515267_37 = PRIM_CAR(v__3514600_37);
+Obj v__3514787_37 = v__3515267_37;
+Obj v__3515268_37 = PRIM_CDR(v__3514600_37);
+Obj v__3515269_37 = PRIM_EQ(Nil, v__3515268_37);
+if (True == v__3515269_37) {
+coraReturn(co, v__3514787_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514785_37);
+coraCall0(co, v__3514781_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514785_37);
+coraCall0(co, v__3514781_37);
 return;
 }
 }
@@ -2092,39 +2092,39 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514786_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
-Obj v__3515260_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515260_37) {
-Obj v__3515261_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514789_37 = v__3515261_37;
-Obj v__3515262_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515263_37 = PRIM_ISCONS(v__3515262_37);
-if (True == v__3515263_37) {
-Obj v__3515264_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515265_37 = PRIM_CAR(v__3515264_37);
-Obj v__3514790_37 = v__3515265_37;
-Obj v__3515266_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515267_37 = PRIM_CDR(v__3515266_37);
-Obj v__3515268_37 = PRIM_EQ(Nil, v__3515267_37);
-if (True == v__3515268_37) {
-Obj v__3515269_37 = makeCons(co->gc, v__3514790_37, Nil);
-Obj v__3515270_37 = makeCons(co->gc, v__3514789_37, v__3515269_37);
-Obj v__3515271_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515270_37);
-coraReturn(co, v__3515271_37);
+Obj v__3514782_37 = makeNative(co->gc, 2, clofun69, 0, 1, closureRef(R[0], 0));
+Obj v__3515254_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515254_37) {
+Obj v__3515255_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514785_37 = v__3515255_37;
+Obj v__3515256_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515257_37 = PRIM_ISCONS(v__3515256_37);
+if (True == v__3515257_37) {
+Obj v__3515258_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515259_37 = PRIM_CAR(v__3515258_37);
+Obj v__3514786_37 = v__3515259_37;
+Obj v__3515260_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515261_37 = PRIM_CDR(v__3515260_37);
+Obj v__3515262_37 = PRIM_EQ(Nil, v__3515261_37);
+if (True == v__3515262_37) {
+Obj v__3515263_37 = makeCons(co->gc, v__3514786_37, Nil);
+Obj v__3515264_37 = makeCons(co->gc, v__3514785_37, v__3515263_37);
+Obj v__3515265_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515264_37);
+coraReturn(co, v__3515265_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514786_37);
+coraCall0(co, v__3514782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514786_37);
+coraCall0(co, v__3514782_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514786_37);
+coraCall0(co, v__3514782_37);
 return;
 }
 }
@@ -2135,15 +2135,15 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515253_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515253_37) {
-Obj v__3515254_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514787_37 = v__3515254_37;
-Obj v__3515255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514788_37 = v__3515255_37;
-R[1] = v__3514787_37;
+Obj v__3515247_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515247_37) {
+Obj v__3515248_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514783_37 = v__3515248_37;
+Obj v__3515249_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514784_37 = v__3515249_37;
+R[1] = v__3514783_37;
 saveCont(co, clofun69, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514788_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 91)), v__3514784_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2153,12 +2153,12 @@ return;
 }
 case 1:
 {
-Obj v__3515256_37= co->res;
-Obj v__3514787_37 = R[1];
-Obj v__3515257_37 = makeCons(co->gc, v__3515256_37, Nil);
-Obj v__3515258_37 = makeCons(co->gc, v__3514787_37, v__3515257_37);
-Obj v__3515259_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515258_37);
-coraReturn(co, v__3515259_37);
+Obj v__3515250_37= co->res;
+Obj v__3514783_37 = R[1];
+Obj v__3515251_37 = makeCons(co->gc, v__3515250_37, Nil);
+Obj v__3515252_37 = makeCons(co->gc, v__3514783_37, v__3515251_37);
+Obj v__3515253_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3515252_37);
+coraReturn(co, v__3515253_37);
 return;
 }
 }
@@ -2168,23 +2168,23 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514601_37 = R[1];
+Obj v__3514599_37 = R[1];
 saveCont(co, clofun68, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514601_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514599_37);
 return;
 }
 case 1:
 {
-Obj v__3515251_37= co->res;
+Obj v__3515245_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515251_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 92)), v__3515245_37);
 return;
 }
 case 2:
 {
-Obj v__3515250_37= co->res;
+Obj v__3515244_37= co->res;
 saveCont(co, clofun68, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515250_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 94)), v__3515244_37);
 return;
 }
 }
@@ -2194,8 +2194,8 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514600_37 = R[1];
-coraReturn(co, v__3514600_37);
+Obj v__3514598_37 = R[1];
+coraReturn(co, v__3514598_37);
 return;
 }
 }
@@ -2205,9 +2205,9 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514599_37 = R[1];
+Obj v__3514597_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514599_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 93)), Nil, makeCString(co->gc, ""), Nil, v__3514597_37);
 return;
 }
 }
@@ -2217,90 +2217,90 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514595_37 = R[1];
-R[1] = v__3514595_37;
+Obj v__3514593_37 = R[1];
+R[1] = v__3514593_37;
 saveCont(co, clofun65, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514593_37);
 return;
 }
 case 1:
 {
-Obj v__3515242_37= co->res;
-Obj v__3514784_37 = R[1];
-Obj v__3515240_37 = R[2];
-Obj v__3515243_37 = makeCons(co->gc, v__3515242_37, Nil);
-Obj v__3515244_37 = makeCons(co->gc, v__3514784_37, v__3515243_37);
-Obj v__3515245_37 = makeCons(co->gc, v__3515240_37, v__3515244_37);
-Obj v__3515246_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515245_37);
-coraReturn(co, v__3515246_37);
+Obj v__3515236_37= co->res;
+Obj v__3514780_37 = R[1];
+Obj v__3515234_37 = R[2];
+Obj v__3515237_37 = makeCons(co->gc, v__3515236_37, Nil);
+Obj v__3515238_37 = makeCons(co->gc, v__3514780_37, v__3515237_37);
+Obj v__3515239_37 = makeCons(co->gc, v__3515234_37, v__3515238_37);
+Obj v__3515240_37 = makeCons(co->gc, getBinding(co, packageID, 135).name, v__3515239_37);
+coraReturn(co, v__3515240_37);
 return;
 }
 case 2:
 {
-Obj v__3515241_37= co->res;
-Obj v__3514782_37 = R[1];
-Obj v__3514784_37 = R[2];
-Obj v__3515240_37 = R[3];
-R[1] = v__3514784_37;
-R[2] = v__3515240_37;
+Obj v__3515235_37= co->res;
+Obj v__3514778_37 = R[1];
+Obj v__3514780_37 = R[2];
+Obj v__3515234_37 = R[3];
+R[1] = v__3514780_37;
+R[2] = v__3515234_37;
 saveCont(co, clofun65, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3515241_37, v__3514782_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3515235_37, v__3514778_37);
 return;
 }
 case 3:
 {
-Obj v__3515240_37= co->res;
-Obj v__3514782_37 = R[1];
-Obj v__3514784_37 = R[2];
-R[1] = v__3514782_37;
-R[2] = v__3514784_37;
-R[3] = v__3515240_37;
+Obj v__3515234_37= co->res;
+Obj v__3514778_37 = R[1];
+Obj v__3514780_37 = R[2];
+R[1] = v__3514778_37;
+R[2] = v__3514780_37;
+R[3] = v__3515234_37;
 saveCont(co, clofun65, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514784_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514780_37);
 return;
 }
 case 4:
 {
-Obj v__3515239_37= co->res;
-Obj v__3514595_37 = R[1];
-Obj v__3514782_37 = R[2];
-Obj v__3514784_37 = v__3515239_37;
-R[1] = v__3514782_37;
-R[2] = v__3514784_37;
+Obj v__3515233_37= co->res;
+Obj v__3514593_37 = R[1];
+Obj v__3514778_37 = R[2];
+Obj v__3514780_37 = v__3515233_37;
+R[1] = v__3514778_37;
+R[2] = v__3514780_37;
 saveCont(co, clofun65, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514593_37);
 return;
 }
 case 5:
 {
-Obj v__3515238_37= co->res;
-Obj v__3514595_37 = R[1];
-Obj v__3514782_37 = R[2];
-Obj v__3514783_37 = v__3515238_37;
-R[1] = v__3514595_37;
-R[2] = v__3514782_37;
+Obj v__3515232_37= co->res;
+Obj v__3514593_37 = R[1];
+Obj v__3514778_37 = R[2];
+Obj v__3514779_37 = v__3515232_37;
+R[1] = v__3514593_37;
+R[2] = v__3514778_37;
 saveCont(co, clofun65, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514783_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3514779_37);
 return;
 }
 case 6:
 {
-Obj v__3515237_37= co->res;
-Obj v__3514595_37 = R[1];
-Obj v__3514782_37 = v__3515237_37;
-R[1] = v__3514595_37;
-R[2] = v__3514782_37;
+Obj v__3515231_37= co->res;
+Obj v__3514593_37 = R[1];
+Obj v__3514778_37 = v__3515231_37;
+R[1] = v__3514593_37;
+R[2] = v__3514778_37;
 saveCont(co, clofun65, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514782_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 97)), v__3514778_37);
 return;
 }
 case 7:
 {
-Obj v__3515236_37= co->res;
-Obj v__3514595_37 = R[1];
-R[1] = v__3514595_37;
+Obj v__3515230_37= co->res;
+Obj v__3514593_37 = R[1];
+R[1] = v__3514593_37;
 saveCont(co, clofun65, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515236_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3515230_37);
 return;
 }
 }
@@ -2310,26 +2310,26 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514594_37 = R[1];
-Obj v__3515230_37 = PRIM_EQ(v__3514594_37, MAKE_NUMBER(0));
-if (True == v__3515230_37) {
+Obj v__3514592_37 = R[1];
+Obj v__3515224_37 = PRIM_EQ(v__3514592_37, MAKE_NUMBER(0));
+if (True == v__3515224_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3515231_37 = primGenSym(co);
-Obj v__3515232_37 = PRIM_SUB(v__3514594_37, MAKE_NUMBER(1));
-R[1] = v__3515231_37;
+Obj v__3515225_37 = primGenSym(co);
+Obj v__3515226_37 = PRIM_SUB(v__3514592_37, MAKE_NUMBER(1));
+R[1] = v__3515225_37;
 saveCont(co, clofun64, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515232_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 96)), v__3515226_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515233_37= co->res;
-Obj v__3515231_37 = R[1];
-Obj v__3515234_37 = makeCons(co->gc, v__3515231_37, v__3515233_37);
-coraReturn(co, v__3515234_37);
+Obj v__3515227_37= co->res;
+Obj v__3515225_37 = R[1];
+Obj v__3515228_37 = makeCons(co->gc, v__3515225_37, v__3515227_37);
+coraReturn(co, v__3515228_37);
 return;
 }
 }
@@ -2339,52 +2339,52 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514588_37 = R[1];
+Obj v__3514586_37 = R[1];
 saveCont(co, clofun63, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514588_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), Nil, v__3514586_37);
 return;
 }
 case 1:
 {
-Obj v__3515227_37= co->res;
-Obj v__3514781_37 = R[1];
-Obj v__3515228_37 = primNot(v__3515227_37);
-if (True == v__3515228_37) {
+Obj v__3515221_37= co->res;
+Obj v__3514777_37 = R[1];
+Obj v__3515222_37 = primNot(v__3515221_37);
+if (True == v__3515222_37) {
 co->ctx.sp = R;
 coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), makeCString(co->gc, "inconsistent func rule args count"));
 return;
 } else {
-coraReturn(co, v__3514781_37);
+coraReturn(co, v__3514777_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3515226_37= co->res;
-Obj v__3514781_37 = R[1];
-R[1] = v__3514781_37;
+Obj v__3515220_37= co->res;
+Obj v__3514777_37 = R[1];
+R[1] = v__3514777_37;
 saveCont(co, clofun63, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515226_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515220_37);
 return;
 }
 case 3:
 {
-Obj v__3515221_37= co->res;
-Obj v__3514780_37 = v__3515221_37;
-Obj v__3515222_37 = PRIM_CAR(v__3514780_37);
-Obj v__3514781_37 = v__3515222_37;
-Obj v__3515225_37 = PRIM_CDR(v__3514780_37);
-R[1] = v__3514781_37;
+Obj v__3515215_37= co->res;
+Obj v__3514776_37 = v__3515215_37;
+Obj v__3515216_37 = PRIM_CAR(v__3514776_37);
+Obj v__3514777_37 = v__3515216_37;
+Obj v__3515219_37 = PRIM_CDR(v__3514776_37);
+R[1] = v__3514777_37;
 saveCont(co, clofun63, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3514781_37), v__3515225_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), makeNative(co->gc, 2, clofun62, 1, 1, v__3514777_37), v__3515219_37);
 return;
 }
 case 4:
 {
-Obj v__3515219_37= co->res;
-Obj v__3514779_37 = v__3515219_37;
+Obj v__3515213_37= co->res;
+Obj v__3514775_37 = v__3515213_37;
 saveCont(co, clofun63, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3514779_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), makeNative(co->gc, 2, clofun61, 1, 0), v__3514775_37);
 return;
 }
 }
@@ -2394,10 +2394,10 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514593_37 = R[1];
-Obj v__3515223_37 = PRIM_EQ(closureRef(R[0], 0), v__3514593_37);
-Obj v__3515224_37 = primNot(v__3515223_37);
-coraReturn(co, v__3515224_37);
+Obj v__3514591_37 = R[1];
+Obj v__3515217_37 = PRIM_EQ(closureRef(R[0], 0), v__3514591_37);
+Obj v__3515218_37 = primNot(v__3515217_37);
+coraReturn(co, v__3515218_37);
 return;
 }
 }
@@ -2407,10 +2407,10 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514590_37 = R[1];
-Obj v__3515220_37 = PRIM_CDR(v__3514590_37);
+Obj v__3514588_37 = R[1];
+Obj v__3515214_37 = PRIM_CDR(v__3514588_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515220_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), v__3515214_37);
 return;
 }
 }
@@ -2420,27 +2420,27 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514586_37 = R[1];
-Obj v__3514587_37 = R[2];
-Obj v__3515213_37 = PRIM_EQ(v__3514586_37, Nil);
-if (True == v__3515213_37) {
-coraReturn(co, v__3514587_37);
+Obj v__3514584_37 = R[1];
+Obj v__3514585_37 = R[2];
+Obj v__3515207_37 = PRIM_EQ(v__3514584_37, Nil);
+if (True == v__3515207_37) {
+coraReturn(co, v__3514585_37);
 return;
 } else {
-Obj v__3515214_37 = PRIM_CAR(v__3514586_37);
-Obj v__3515215_37 = PRIM_CDR(v__3514586_37);
-R[1] = v__3515214_37;
+Obj v__3515208_37 = PRIM_CAR(v__3514584_37);
+Obj v__3515209_37 = PRIM_CDR(v__3514584_37);
+R[1] = v__3515208_37;
 saveCont(co, clofun60, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515215_37, v__3514587_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 98)), v__3515209_37, v__3514585_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515216_37= co->res;
-Obj v__3515214_37 = R[1];
-Obj v__3515217_37 = makeCons(co->gc, v__3515214_37, v__3515216_37);
-coraReturn(co, v__3515217_37);
+Obj v__3515210_37= co->res;
+Obj v__3515208_37 = R[1];
+Obj v__3515211_37 = makeCons(co->gc, v__3515208_37, v__3515210_37);
+coraReturn(co, v__3515211_37);
 return;
 }
 }
@@ -2450,10 +2450,10 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514584_37 = R[1];
-Obj v__3514585_37 = R[2];
+Obj v__3514582_37 = R[1];
+Obj v__3514583_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514584_37, v__3514585_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), Nil, v__3514582_37, v__3514583_37);
 return;
 }
 }
@@ -2463,41 +2463,41 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514581_37 = R[1];
-Obj v__3514582_37 = R[2];
-Obj v__3514583_37 = R[3];
-Obj v__3515204_37 = PRIM_ISCONS(v__3514583_37);
-if (True == v__3515204_37) {
-Obj v__3515205_37 = PRIM_CAR(v__3514583_37);
-R[1] = v__3514583_37;
-R[2] = v__3514581_37;
-R[3] = v__3514582_37;
+Obj v__3514579_37 = R[1];
+Obj v__3514580_37 = R[2];
+Obj v__3514581_37 = R[3];
+Obj v__3515198_37 = PRIM_ISCONS(v__3514581_37);
+if (True == v__3515198_37) {
+Obj v__3515199_37 = PRIM_CAR(v__3514581_37);
+R[1] = v__3514581_37;
+R[2] = v__3514579_37;
+R[3] = v__3514580_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, v__3514582_37, v__3515205_37);
+coraCall1(co, v__3514580_37, v__3515199_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514581_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514579_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515206_37= co->res;
-Obj v__3514583_37 = R[1];
-Obj v__3514581_37 = R[2];
-Obj v__3514582_37 = R[3];
-if (True == v__3515206_37) {
-Obj v__3515207_37 = PRIM_CAR(v__3514583_37);
-Obj v__3515208_37 = makeCons(co->gc, v__3515207_37, v__3514581_37);
-Obj v__3515209_37 = PRIM_CDR(v__3514583_37);
+Obj v__3515200_37= co->res;
+Obj v__3514581_37 = R[1];
+Obj v__3514579_37 = R[2];
+Obj v__3514580_37 = R[3];
+if (True == v__3515200_37) {
+Obj v__3515201_37 = PRIM_CAR(v__3514581_37);
+Obj v__3515202_37 = makeCons(co->gc, v__3515201_37, v__3514579_37);
+Obj v__3515203_37 = PRIM_CDR(v__3514581_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515208_37, v__3514582_37, v__3515209_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3515202_37, v__3514580_37, v__3515203_37);
 return;
 } else {
-Obj v__3515210_37 = PRIM_CDR(v__3514583_37);
+Obj v__3515204_37 = PRIM_CDR(v__3514581_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514581_37, v__3514582_37, v__3515210_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 100)), v__3514579_37, v__3514580_37, v__3515204_37);
 return;
 }
 }
@@ -2508,9 +2508,9 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514580_37 = R[1];
+Obj v__3514578_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514580_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), MAKE_NUMBER(0), v__3514578_37);
 return;
 }
 }
@@ -2520,17 +2520,17 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514578_37 = R[1];
-Obj v__3514579_37 = R[2];
-Obj v__3515199_37 = PRIM_EQ(v__3514579_37, Nil);
-if (True == v__3515199_37) {
-coraReturn(co, v__3514578_37);
+Obj v__3514576_37 = R[1];
+Obj v__3514577_37 = R[2];
+Obj v__3515193_37 = PRIM_EQ(v__3514577_37, Nil);
+if (True == v__3515193_37) {
+coraReturn(co, v__3514576_37);
 return;
 } else {
-Obj v__3515200_37 = PRIM_ADD(v__3514578_37, MAKE_NUMBER(1));
-Obj v__3515201_37 = PRIM_CDR(v__3514579_37);
+Obj v__3515194_37 = PRIM_ADD(v__3514576_37, MAKE_NUMBER(1));
+Obj v__3515195_37 = PRIM_CDR(v__3514577_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515200_37, v__3515201_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 102)), v__3515194_37, v__3515195_37);
 return;
 }
 }
@@ -2541,37 +2541,37 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514576_37 = R[1];
-Obj v__3514577_37 = R[2];
-R[1] = v__3514576_37;
-R[2] = v__3514577_37;
+Obj v__3514574_37 = R[1];
+Obj v__3514575_37 = R[2];
+R[1] = v__3514574_37;
+R[2] = v__3514575_37;
 saveCont(co, clofun55, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514577_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514575_37);
 return;
 }
 case 1:
 {
-Obj v__3515197_37= co->res;
-Obj v__3515196_37 = R[1];
+Obj v__3515191_37= co->res;
+Obj v__3515190_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515196_37, v__3515197_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 103)), v__3515190_37, v__3515191_37);
 return;
 }
 case 2:
 {
-Obj v__3515194_37= co->res;
-Obj v__3514576_37 = R[1];
-Obj v__3514577_37 = R[2];
-if (True == v__3515194_37) {
+Obj v__3515188_37= co->res;
+Obj v__3514574_37 = R[1];
+Obj v__3514575_37 = R[2];
+if (True == v__3515188_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514576_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514574_37);
 return;
 } else {
-Obj v__3515195_37 = PRIM_CAR(v__3514577_37);
-Obj v__3515196_37 = makeCons(co->gc, v__3515195_37, v__3514576_37);
-R[1] = v__3515196_37;
+Obj v__3515189_37 = PRIM_CAR(v__3514575_37);
+Obj v__3515190_37 = makeCons(co->gc, v__3515189_37, v__3514574_37);
+R[1] = v__3515190_37;
 saveCont(co, clofun55, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514577_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514575_37);
 return;
 }
 }
@@ -2582,9 +2582,9 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514575_37 = R[1];
+Obj v__3514573_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514575_37, Nil, Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514573_37, Nil, Nil);
 return;
 }
 }
@@ -2594,106 +2594,106 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514550_37 = R[1];
-Obj v__3514551_37 = R[2];
-Obj v__3514552_37 = R[3];
-Obj v__3515141_37 = PRIM_EQ(Nil, v__3514550_37);
-if (True == v__3515141_37) {
-co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514552_37);
-return;
-} else {
-Obj v__3514768_37 = makeNative(co->gc, 3, clofun52, 0, 3, v__3514550_37, v__3514551_37, v__3514552_37);
-Obj v__3515159_37 = PRIM_ISCONS(v__3514550_37);
-if (True == v__3515159_37) {
-Obj v__3515160_37 = PRIM_CAR(v__3514550_37);
-Obj v__3515161_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515160_37);
-if (True == v__3515161_37) {
-Obj v__3515162_37 = PRIM_CDR(v__3514550_37);
-Obj v__3515163_37 = PRIM_ISCONS(v__3515162_37);
-if (True == v__3515163_37) {
-Obj v__3515164_37 = PRIM_CDR(v__3514550_37);
+Obj v__3514548_37 = R[1];
+Obj v__3514549_37 = R[2];
+Obj v__3514550_37 = R[3];
+Obj v__3515135_37 = PRIM_EQ(Nil, v__3514548_37);
+if (True == v__3515135_37) {
+co->ctx.sp = R;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514550_37);
+return;
+} else {
+Obj v__3514764_37 = makeNative(co->gc, 3, clofun52, 0, 3, v__3514548_37, v__3514549_37, v__3514550_37);
+Obj v__3515153_37 = PRIM_ISCONS(v__3514548_37);
+if (True == v__3515153_37) {
+Obj v__3515154_37 = PRIM_CAR(v__3514548_37);
+Obj v__3515155_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515154_37);
+if (True == v__3515155_37) {
+Obj v__3515156_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515157_37 = PRIM_ISCONS(v__3515156_37);
+if (True == v__3515157_37) {
+Obj v__3515158_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515159_37 = PRIM_CAR(v__3515158_37);
+Obj v__3514771_37 = v__3515159_37;
+Obj v__3515160_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515161_37 = PRIM_CDR(v__3515160_37);
+Obj v__3515162_37 = PRIM_ISCONS(v__3515161_37);
+if (True == v__3515162_37) {
+Obj v__3515163_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515164_37 = PRIM_CDR(v__3515163_37);
 Obj v__3515165_37 = PRIM_CAR(v__3515164_37);
-Obj v__3514775_37 = v__3515165_37;
-Obj v__3515166_37 = PRIM_CDR(v__3514550_37);
-Obj v__3515167_37 = PRIM_CDR(v__3515166_37);
-Obj v__3515168_37 = PRIM_ISCONS(v__3515167_37);
-if (True == v__3515168_37) {
-Obj v__3515169_37 = PRIM_CDR(v__3514550_37);
-Obj v__3515170_37 = PRIM_CDR(v__3515169_37);
-Obj v__3515171_37 = PRIM_CAR(v__3515170_37);
-Obj v__3515172_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3515171_37);
-if (True == v__3515172_37) {
-Obj v__3515173_37 = PRIM_CDR(v__3514550_37);
-Obj v__3515174_37 = PRIM_CDR(v__3515173_37);
-Obj v__3515175_37 = PRIM_CDR(v__3515174_37);
-Obj v__3515176_37 = PRIM_ISCONS(v__3515175_37);
-if (True == v__3515176_37) {
-Obj v__3515177_37 = PRIM_CDR(v__3514550_37);
+Obj v__3515166_37 = PRIM_EQ(getBinding(co, packageID, 111).name, v__3515165_37);
+if (True == v__3515166_37) {
+Obj v__3515167_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515168_37 = PRIM_CDR(v__3515167_37);
+Obj v__3515169_37 = PRIM_CDR(v__3515168_37);
+Obj v__3515170_37 = PRIM_ISCONS(v__3515169_37);
+if (True == v__3515170_37) {
+Obj v__3515171_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515172_37 = PRIM_CDR(v__3515171_37);
+Obj v__3515173_37 = PRIM_CDR(v__3515172_37);
+Obj v__3515174_37 = PRIM_CAR(v__3515173_37);
+Obj v__3514772_37 = v__3515174_37;
+Obj v__3515175_37 = PRIM_CDR(v__3514548_37);
+Obj v__3515176_37 = PRIM_CDR(v__3515175_37);
+Obj v__3515177_37 = PRIM_CDR(v__3515176_37);
 Obj v__3515178_37 = PRIM_CDR(v__3515177_37);
-Obj v__3515179_37 = PRIM_CDR(v__3515178_37);
-Obj v__3515180_37 = PRIM_CAR(v__3515179_37);
-Obj v__3514776_37 = v__3515180_37;
-Obj v__3515181_37 = PRIM_CDR(v__3514550_37);
-Obj v__3515182_37 = PRIM_CDR(v__3515181_37);
-Obj v__3515183_37 = PRIM_CDR(v__3515182_37);
-Obj v__3515184_37 = PRIM_CDR(v__3515183_37);
-Obj v__3514777_37 = v__3515184_37;
-R[1] = v__3514775_37;
-R[2] = v__3514776_37;
-R[3] = v__3514552_37;
-R[4] = v__3514777_37;
+Obj v__3514773_37 = v__3515178_37;
+R[1] = v__3514771_37;
+R[2] = v__3514772_37;
+R[3] = v__3514550_37;
+R[4] = v__3514773_37;
 saveCont(co, clofun53, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514551_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), v__3514549_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514768_37);
+coraCall0(co, v__3514764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514768_37);
+coraCall0(co, v__3514764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514768_37);
+coraCall0(co, v__3514764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514768_37);
+coraCall0(co, v__3514764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514768_37);
+coraCall0(co, v__3514764_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514768_37);
+coraCall0(co, v__3514764_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515185_37= co->res;
-Obj v__3514775_37 = R[1];
-Obj v__3514776_37 = R[2];
-Obj v__3514552_37 = R[3];
-Obj v__3514777_37 = R[4];
-Obj v__3515186_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515185_37);
-Obj v__3514778_37 = v__3515186_37;
-Obj v__3515187_37 = makeCons(co->gc, v__3514775_37, Nil);
-Obj v__3515188_37 = makeCons(co->gc, v__3514776_37, v__3515187_37);
-Obj v__3515189_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3515188_37);
-Obj v__3515190_37 = makeCons(co->gc, v__3514778_37, v__3514552_37);
-Obj v__3515191_37 = makeCons(co->gc, v__3515189_37, v__3515190_37);
+Obj v__3515179_37= co->res;
+Obj v__3514771_37 = R[1];
+Obj v__3514772_37 = R[2];
+Obj v__3514550_37 = R[3];
+Obj v__3514773_37 = R[4];
+Obj v__3515180_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515179_37);
+Obj v__3514774_37 = v__3515180_37;
+Obj v__3515181_37 = makeCons(co->gc, v__3514771_37, Nil);
+Obj v__3515182_37 = makeCons(co->gc, v__3514772_37, v__3515181_37);
+Obj v__3515183_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3515182_37);
+Obj v__3515184_37 = makeCons(co->gc, v__3514774_37, v__3514550_37);
+Obj v__3515185_37 = makeCons(co->gc, v__3515183_37, v__3515184_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514777_37, Nil, v__3515191_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514773_37, Nil, v__3515185_37);
 return;
 }
 }
@@ -2703,53 +2703,53 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514769_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3515146_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515146_37) {
-Obj v__3515147_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3515148_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515147_37);
-if (True == v__3515148_37) {
-Obj v__3515149_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515150_37 = PRIM_ISCONS(v__3515149_37);
-if (True == v__3515150_37) {
-Obj v__3515151_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515152_37 = PRIM_CAR(v__3515151_37);
-Obj v__3514772_37 = v__3515152_37;
-Obj v__3515153_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3515154_37 = PRIM_CDR(v__3515153_37);
-Obj v__3514773_37 = v__3515154_37;
-R[1] = v__3514772_37;
-R[2] = v__3514773_37;
+Obj v__3514765_37 = makeNative(co->gc, 1, clofun51, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3515140_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515140_37) {
+Obj v__3515141_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3515142_37 = PRIM_EQ(getBinding(co, packageID, 105).name, v__3515141_37);
+if (True == v__3515142_37) {
+Obj v__3515143_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515144_37 = PRIM_ISCONS(v__3515143_37);
+if (True == v__3515144_37) {
+Obj v__3515145_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515146_37 = PRIM_CAR(v__3515145_37);
+Obj v__3514768_37 = v__3515146_37;
+Obj v__3515147_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3515148_37 = PRIM_CDR(v__3515147_37);
+Obj v__3514769_37 = v__3515148_37;
+R[1] = v__3514768_37;
+R[2] = v__3514769_37;
 saveCont(co, clofun52, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 150)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514769_37);
+coraCall0(co, v__3514765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514769_37);
+coraCall0(co, v__3514765_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3514769_37);
+coraCall0(co, v__3514765_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515155_37= co->res;
-Obj v__3514772_37 = R[1];
-Obj v__3514773_37 = R[2];
-Obj v__3515156_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515155_37);
-Obj v__3514774_37 = v__3515156_37;
-Obj v__3515157_37 = makeCons(co->gc, v__3514774_37, closureRef(R[0], 2));
-Obj v__3515158_37 = makeCons(co->gc, v__3514772_37, v__3515157_37);
+Obj v__3515149_37= co->res;
+Obj v__3514768_37 = R[1];
+Obj v__3514769_37 = R[2];
+Obj v__3515150_37 = makeCons(co->gc, getBinding(co, packageID, 136).name, v__3515149_37);
+Obj v__3514770_37 = v__3515150_37;
+Obj v__3515151_37 = makeCons(co->gc, v__3514770_37, closureRef(R[0], 2));
+Obj v__3515152_37 = makeCons(co->gc, v__3514768_37, v__3515151_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514773_37, Nil, v__3515158_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514769_37, Nil, v__3515152_37);
 return;
 }
 }
@@ -2759,15 +2759,15 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3515142_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3515142_37) {
-Obj v__3515143_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3514770_37 = v__3515143_37;
-Obj v__3515144_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3514771_37 = v__3515144_37;
-Obj v__3515145_37 = makeCons(co->gc, v__3514770_37, closureRef(R[0], 1));
+Obj v__3515136_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3515136_37) {
+Obj v__3515137_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3514766_37 = v__3515137_37;
+Obj v__3515138_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514767_37 = v__3515138_37;
+Obj v__3515139_37 = makeCons(co->gc, v__3514766_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514771_37, v__3515145_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 106)), v__3514767_37, v__3515139_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -2782,9 +2782,9 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514549_37 = R[1];
+Obj v__3514547_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514549_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 108)), v__3514547_37);
 return;
 }
 }
@@ -2794,37 +2794,37 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514546_37 = R[1];
-R[1] = v__3514546_37;
+Obj v__3514544_37 = R[1];
+R[1] = v__3514544_37;
 saveCont(co, clofun49, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514546_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514544_37);
 return;
 }
 case 1:
 {
-Obj v__3515138_37= co->res;
-Obj v__3514767_37 = R[1];
+Obj v__3515132_37= co->res;
+Obj v__3514763_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515138_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3514767_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515132_37, makeNative(co->gc, 2, clofun48, 1, 1, v__3514763_37));
 return;
 }
 case 2:
 {
-Obj v__3515137_37= co->res;
-Obj v__3514767_37 = R[1];
-R[1] = v__3514767_37;
+Obj v__3515131_37= co->res;
+Obj v__3514763_37 = R[1];
+R[1] = v__3514763_37;
 saveCont(co, clofun49, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3515137_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3515131_37);
 return;
 }
 case 3:
 {
-Obj v__3515136_37= co->res;
-Obj v__3514546_37 = R[1];
-Obj v__3514767_37 = v__3515136_37;
-R[1] = v__3514767_37;
+Obj v__3515130_37= co->res;
+Obj v__3514544_37 = R[1];
+Obj v__3514763_37 = v__3515130_37;
+R[1] = v__3514763_37;
 saveCont(co, clofun49, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514546_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514544_37);
 return;
 }
 }
@@ -2834,9 +2834,9 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514548_37 = R[1];
+Obj v__3514546_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3514548_37, closureRef(R[0], 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), v__3514546_37, closureRef(R[0], 0));
 return;
 }
 }
@@ -2846,25 +2846,25 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514541_37 = R[1];
-Obj v__3514542_37 = R[2];
-Obj v__3514762_37 = makeNative(co->gc, 2, clofun46, 1, 2, v__3514542_37, v__3514541_37);
-Obj v__3515132_37 = PRIM_ISCONS(v__3514541_37);
-if (True == v__3515132_37) {
-Obj v__3515133_37 = PRIM_CAR(v__3514541_37);
-Obj v__3515134_37 = PRIM_EQ(v__3515133_37, getBinding(co, packageID, 153).name);
-if (True == v__3515134_37) {
+Obj v__3514539_37 = R[1];
+Obj v__3514540_37 = R[2];
+Obj v__3514758_37 = makeNative(co->gc, 2, clofun46, 1, 2, v__3514540_37, v__3514539_37);
+Obj v__3515126_37 = PRIM_ISCONS(v__3514539_37);
+if (True == v__3515126_37) {
+Obj v__3515127_37 = PRIM_CAR(v__3514539_37);
+Obj v__3515128_37 = PRIM_EQ(v__3515127_37, getBinding(co, packageID, 153).name);
+if (True == v__3515128_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514762_37, True);
+coraCall1(co, v__3514758_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514762_37, False);
+coraCall1(co, v__3514758_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514762_37, False);
+coraCall1(co, v__3514758_37, False);
 return;
 }
 }
@@ -2875,14 +2875,14 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514761_37 = R[1];
-if (True == v__3514761_37) {
+Obj v__3514757_37 = R[1];
+if (True == v__3514757_37) {
 saveCont(co, clofun46, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514765_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-R[1] = v__3514765_37;
+Obj v__3514761_37 = makeNative(co->gc, 2, clofun45, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+R[1] = v__3514761_37;
 saveCont(co, clofun46, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), closureRef(R[0], 1));
 return;
@@ -2890,30 +2890,30 @@ return;
 }
 case 1:
 {
-Obj v__3515118_37= co->res;
+Obj v__3515112_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515118_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515112_37, makeNative(co->gc, 2, clofun44, 1, 2, closureRef(R[0], 1), closureRef(R[0], 0)));
 return;
 }
 case 2:
 {
-Obj v__3515129_37= co->res;
-Obj v__3514765_37 = R[1];
-if (True == v__3515129_37) {
-Obj v__3515130_37 = primIsSymbol(closureRef(R[0], 1));
-Obj v__3515131_37 = primNot(v__3515130_37);
-if (True == v__3515131_37) {
+Obj v__3515123_37= co->res;
+Obj v__3514761_37 = R[1];
+if (True == v__3515123_37) {
+Obj v__3515124_37 = primIsSymbol(closureRef(R[0], 1));
+Obj v__3515125_37 = primNot(v__3515124_37);
+if (True == v__3515125_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514765_37, True);
+coraCall1(co, v__3514761_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514765_37, False);
+coraCall1(co, v__3514761_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514765_37, False);
+coraCall1(co, v__3514761_37, False);
 return;
 }
 }
@@ -2924,29 +2924,29 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514764_37 = R[1];
-if (True == v__3514764_37) {
+Obj v__3514760_37 = R[1];
+if (True == v__3514760_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
 } else {
-Obj v__3515123_37 = primGenSym(co);
-Obj v__3514766_37 = v__3515123_37;
-R[1] = v__3514766_37;
+Obj v__3515117_37 = primGenSym(co);
+Obj v__3514762_37 = v__3515117_37;
+R[1] = v__3514762_37;
 saveCont(co, clofun45, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3514766_37);
+coraCall1(co, closureRef(R[0], 1), v__3514762_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3515124_37= co->res;
-Obj v__3514766_37 = R[1];
-Obj v__3515125_37 = makeCons(co->gc, v__3515124_37, Nil);
-Obj v__3515126_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515125_37);
-Obj v__3515127_37 = makeCons(co->gc, v__3514766_37, v__3515126_37);
-Obj v__3515128_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515127_37);
-coraReturn(co, v__3515128_37);
+Obj v__3515118_37= co->res;
+Obj v__3514762_37 = R[1];
+Obj v__3515119_37 = makeCons(co->gc, v__3515118_37, Nil);
+Obj v__3515120_37 = makeCons(co->gc, closureRef(R[0], 0), v__3515119_37);
+Obj v__3515121_37 = makeCons(co->gc, v__3514762_37, v__3515120_37);
+Obj v__3515122_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515121_37);
+coraReturn(co, v__3515122_37);
 return;
 }
 }
@@ -2956,18 +2956,18 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514543_37 = R[1];
-R[1] = v__3514543_37;
+Obj v__3514541_37 = R[1];
+R[1] = v__3514541_37;
 saveCont(co, clofun44, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 0));
 return;
 }
 case 1:
 {
-Obj v__3515119_37= co->res;
-Obj v__3514543_37 = R[1];
+Obj v__3515113_37= co->res;
+Obj v__3514541_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515119_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v__3514543_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 109)), v__3515113_37, makeNative(co->gc, 2, clofun43, 1, 2, closureRef(R[0], 1), v__3514541_37));
 return;
 }
 }
@@ -2977,12 +2977,12 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514544_37 = R[1];
-Obj v__3515120_37 = makeCons(co->gc, v__3514544_37, Nil);
-Obj v__3515121_37 = makeCons(co->gc, closureRef(R[0], 1), v__3515120_37);
-Obj v__3515122_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515121_37);
+Obj v__3514542_37 = R[1];
+Obj v__3515114_37 = makeCons(co->gc, v__3514542_37, Nil);
+Obj v__3515115_37 = makeCons(co->gc, closureRef(R[0], 1), v__3515114_37);
+Obj v__3515116_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515115_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 0), v__3515122_37);
+coraCall1(co, closureRef(R[0], 0), v__3515116_37);
 return;
 }
 }
@@ -2992,61 +2992,61 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514534_37 = R[1];
-Obj v__3514535_37 = R[2];
-R[1] = v__3514534_37;
-R[2] = v__3514535_37;
+Obj v__3514532_37 = R[1];
+Obj v__3514533_37 = R[2];
+R[1] = v__3514532_37;
+R[2] = v__3514533_37;
 saveCont(co, clofun42, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514535_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514533_37);
 return;
 }
 case 1:
 {
-Obj v__3515116_37= co->res;
-Obj v__3514754_37 = R[1];
-if (True == v__3515116_37) {
+Obj v__3515110_37= co->res;
+Obj v__3514750_37 = R[1];
+if (True == v__3515110_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514754_37, True);
+coraCall1(co, v__3514750_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514754_37, False);
+coraCall1(co, v__3514750_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3515114_37= co->res;
-Obj v__3514535_37 = R[1];
-Obj v__3514754_37 = R[2];
-if (True == v__3515114_37) {
-Obj v__3515115_37 = PRIM_CDR(v__3514535_37);
-R[1] = v__3514754_37;
+Obj v__3515108_37= co->res;
+Obj v__3514533_37 = R[1];
+Obj v__3514750_37 = R[2];
+if (True == v__3515108_37) {
+Obj v__3515109_37 = PRIM_CDR(v__3514533_37);
+R[1] = v__3514750_37;
 saveCont(co, clofun42, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3515115_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3515109_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514754_37, False);
+coraCall1(co, v__3514750_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3515096_37= co->res;
-Obj v__3514534_37 = R[1];
-Obj v__3514535_37 = R[2];
-if (True == v__3515096_37) {
-Obj v__3515097_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
-Obj v__3515098_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3515097_37);
-coraReturn(co, v__3515098_37);
+Obj v__3515090_37= co->res;
+Obj v__3514532_37 = R[1];
+Obj v__3514533_37 = R[2];
+if (True == v__3515090_37) {
+Obj v__3515091_37 = makeCons(co->gc, makeCString(co->gc, "no match-help found!"), Nil);
+Obj v__3515092_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3515091_37);
+coraReturn(co, v__3515092_37);
 return;
 } else {
-Obj v__3514754_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514534_37, v__3514535_37);
-R[1] = v__3514535_37;
-R[2] = v__3514754_37;
+Obj v__3514750_37 = makeNative(co->gc, 3, clofun41, 1, 2, v__3514532_37, v__3514533_37);
+R[1] = v__3514533_37;
+R[2] = v__3514750_37;
 saveCont(co, clofun42, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514535_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514533_37);
 return;
 }
 }
@@ -3057,16 +3057,16 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514753_37 = R[1];
-if (True == v__3514753_37) {
-Obj v__3515099_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3514755_37 = v__3515099_37;
-Obj v__3515100_37 = primGenSym(co);
-Obj v__3514756_37 = v__3515100_37;
-R[1] = v__3514755_37;
-R[2] = v__3514756_37;
+Obj v__3514749_37 = R[1];
+if (True == v__3514749_37) {
+Obj v__3515093_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514751_37 = v__3515093_37;
+Obj v__3515094_37 = primGenSym(co);
+Obj v__3514752_37 = v__3515094_37;
+R[1] = v__3514751_37;
+R[2] = v__3514752_37;
 saveCont(co, clofun41, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3514756_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 112)), closureRef(R[0], 1), v__3514752_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3076,53 +3076,53 @@ return;
 }
 case 1:
 {
-Obj v__3515106_37= co->res;
-Obj v__3514758_37 = R[1];
-Obj v__3514756_37 = R[2];
-Obj v__3514759_37 = v__3515106_37;
-Obj v__3515107_37 = makeCons(co->gc, v__3514759_37, Nil);
-Obj v__3515108_37 = makeCons(co->gc, Nil, v__3515107_37);
-Obj v__3515109_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515108_37);
-Obj v__3515110_37 = makeCons(co->gc, v__3514758_37, Nil);
-Obj v__3515111_37 = makeCons(co->gc, v__3515109_37, v__3515110_37);
-Obj v__3515112_37 = makeCons(co->gc, v__3514756_37, v__3515111_37);
-Obj v__3515113_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515112_37);
-coraReturn(co, v__3515113_37);
+Obj v__3515100_37= co->res;
+Obj v__3514754_37 = R[1];
+Obj v__3514752_37 = R[2];
+Obj v__3514755_37 = v__3515100_37;
+Obj v__3515101_37 = makeCons(co->gc, v__3514755_37, Nil);
+Obj v__3515102_37 = makeCons(co->gc, Nil, v__3515101_37);
+Obj v__3515103_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3515102_37);
+Obj v__3515104_37 = makeCons(co->gc, v__3514754_37, Nil);
+Obj v__3515105_37 = makeCons(co->gc, v__3515103_37, v__3515104_37);
+Obj v__3515106_37 = makeCons(co->gc, v__3514752_37, v__3515105_37);
+Obj v__3515107_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515106_37);
+coraReturn(co, v__3515107_37);
 return;
 }
 case 2:
 {
-Obj v__3515103_37= co->res;
-Obj v__3514756_37 = R[1];
-Obj v__3514758_37 = v__3515103_37;
-Obj v__3515104_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3515105_37 = PRIM_CDR(v__3515104_37);
-R[1] = v__3514758_37;
-R[2] = v__3514756_37;
+Obj v__3515097_37= co->res;
+Obj v__3514752_37 = R[1];
+Obj v__3514754_37 = v__3515097_37;
+Obj v__3515098_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3515099_37 = PRIM_CDR(v__3515098_37);
+R[1] = v__3514754_37;
+R[2] = v__3514752_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3515105_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 110)), closureRef(R[0], 0), v__3515099_37);
 return;
 }
 case 3:
 {
-Obj v__3515102_37= co->res;
-Obj v__3514757_37 = R[1];
-Obj v__3514756_37 = R[2];
-R[1] = v__3514756_37;
+Obj v__3515096_37= co->res;
+Obj v__3514753_37 = R[1];
+Obj v__3514752_37 = R[2];
+R[1] = v__3514752_37;
 saveCont(co, clofun41, 2, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3515102_37, closureRef(R[0], 0), v__3514757_37, v__3514756_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), v__3515096_37, closureRef(R[0], 0), v__3514753_37, v__3514752_37);
 return;
 }
 case 4:
 {
-Obj v__3515101_37= co->res;
-Obj v__3514755_37 = R[1];
-Obj v__3514756_37 = R[2];
-Obj v__3514757_37 = v__3515101_37;
-R[1] = v__3514757_37;
-R[2] = v__3514756_37;
+Obj v__3515095_37= co->res;
+Obj v__3514751_37 = R[1];
+Obj v__3514752_37 = R[2];
+Obj v__3514753_37 = v__3515095_37;
+R[1] = v__3514753_37;
+R[2] = v__3514752_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3514755_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 139)), v__3514751_37);
 return;
 }
 }
@@ -3132,38 +3132,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514531_37 = R[1];
-Obj v__3514532_37 = R[2];
-Obj v__3515083_37 = PRIM_CDR(v__3514531_37);
-Obj v__3515084_37 = PRIM_CAR(v__3515083_37);
-Obj v__3514748_37 = v__3515084_37;
-Obj v__3514751_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514532_37, v__3514748_37);
-R[1] = v__3514748_37;
-R[2] = v__3514751_37;
+Obj v__3514529_37 = R[1];
+Obj v__3514530_37 = R[2];
+Obj v__3515077_37 = PRIM_CDR(v__3514529_37);
+Obj v__3515078_37 = PRIM_CAR(v__3515077_37);
+Obj v__3514744_37 = v__3515078_37;
+Obj v__3514747_37 = makeNative(co->gc, 2, clofun39, 1, 2, v__3514530_37, v__3514744_37);
+R[1] = v__3514744_37;
+R[2] = v__3514747_37;
 saveCont(co, clofun40, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514748_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514744_37);
 return;
 }
 case 1:
 {
-Obj v__3515092_37= co->res;
-Obj v__3514748_37 = R[1];
-Obj v__3514751_37 = R[2];
-if (True == v__3515092_37) {
-Obj v__3515093_37 = PRIM_CAR(v__3514748_37);
-Obj v__3515094_37 = PRIM_EQ(v__3515093_37, getBinding(co, packageID, 111).name);
-if (True == v__3515094_37) {
+Obj v__3515086_37= co->res;
+Obj v__3514744_37 = R[1];
+Obj v__3514747_37 = R[2];
+if (True == v__3515086_37) {
+Obj v__3515087_37 = PRIM_CAR(v__3514744_37);
+Obj v__3515088_37 = PRIM_EQ(v__3515087_37, getBinding(co, packageID, 111).name);
+if (True == v__3515088_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514751_37, True);
+coraCall1(co, v__3514747_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514751_37, False);
+coraCall1(co, v__3514747_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514751_37, False);
+coraCall1(co, v__3514747_37, False);
 return;
 }
 }
@@ -3174,8 +3174,8 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514750_37 = R[1];
-if (True == v__3514750_37) {
+Obj v__3514746_37 = R[1];
+if (True == v__3514746_37) {
 saveCont(co, clofun39, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 1));
 return;
@@ -3186,20 +3186,20 @@ return;
 }
 case 1:
 {
-Obj v__3515086_37= co->res;
-Obj v__3515085_37 = R[1];
-Obj v__3515087_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3515088_37 = makeCons(co->gc, v__3515087_37, Nil);
-Obj v__3515089_37 = makeCons(co->gc, v__3515086_37, v__3515088_37);
-Obj v__3515090_37 = makeCons(co->gc, v__3515085_37, v__3515089_37);
-Obj v__3515091_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515090_37);
-coraReturn(co, v__3515091_37);
+Obj v__3515080_37= co->res;
+Obj v__3515079_37 = R[1];
+Obj v__3515081_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3515082_37 = makeCons(co->gc, v__3515081_37, Nil);
+Obj v__3515083_37 = makeCons(co->gc, v__3515080_37, v__3515082_37);
+Obj v__3515084_37 = makeCons(co->gc, v__3515079_37, v__3515083_37);
+Obj v__3515085_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515084_37);
+coraReturn(co, v__3515085_37);
 return;
 }
 case 2:
 {
-Obj v__3515085_37= co->res;
-R[1] = v__3515085_37;
+Obj v__3515079_37= co->res;
+R[1] = v__3515079_37;
 saveCont(co, clofun39, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 1));
 return;
@@ -3211,52 +3211,52 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514525_37 = R[1];
-Obj v__3514526_37 = R[2];
-Obj v__3514527_37 = R[3];
-Obj v__3514528_37 = R[4];
-R[1] = v__3514526_37;
-R[2] = v__3514527_37;
-R[3] = v__3514528_37;
-R[4] = v__3514525_37;
+Obj v__3514523_37 = R[1];
+Obj v__3514524_37 = R[2];
+Obj v__3514525_37 = R[3];
+Obj v__3514526_37 = R[4];
+R[1] = v__3514524_37;
+R[2] = v__3514525_37;
+R[3] = v__3514526_37;
+R[4] = v__3514523_37;
 saveCont(co, clofun38, 3, R);
-coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514525_37);
+coraCall1(co, makeNative(co->gc, 2, clofun37, 1, 0), v__3514523_37);
 return;
 }
 case 1:
 {
-Obj v__3515081_37= co->res;
+Obj v__3515075_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3515081_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 128)), v__3515075_37);
 return;
 }
 case 2:
 {
-Obj v__3515068_37= co->res;
-Obj v__3514526_37 = R[1];
-Obj v__3514527_37 = R[2];
-Obj v__3514528_37 = R[3];
-Obj v__3514525_37 = R[4];
-if (True == v__3515068_37) {
-Obj v__3515069_37 = PRIM_CAR(v__3514525_37);
-Obj v__3515070_37 = PRIM_EQ(v__3515069_37, getBinding(co, packageID, 140).name);
-if (True == v__3515070_37) {
-Obj v__3515071_37 = makeCons(co->gc, v__3514526_37, Nil);
-Obj v__3515072_37 = makeCons(co->gc, v__3514525_37, v__3515071_37);
-Obj v__3515073_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515072_37);
-Obj v__3515074_37 = makeCons(co->gc, v__3514528_37, Nil);
-Obj v__3515075_37 = makeCons(co->gc, v__3515074_37, Nil);
-Obj v__3515076_37 = makeCons(co->gc, v__3514527_37, v__3515075_37);
-Obj v__3515077_37 = makeCons(co->gc, v__3515073_37, v__3515076_37);
-Obj v__3515078_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515077_37);
-coraReturn(co, v__3515078_37);
+Obj v__3515062_37= co->res;
+Obj v__3514524_37 = R[1];
+Obj v__3514525_37 = R[2];
+Obj v__3514526_37 = R[3];
+Obj v__3514523_37 = R[4];
+if (True == v__3515062_37) {
+Obj v__3515063_37 = PRIM_CAR(v__3514523_37);
+Obj v__3515064_37 = PRIM_EQ(v__3515063_37, getBinding(co, packageID, 140).name);
+if (True == v__3515064_37) {
+Obj v__3515065_37 = makeCons(co->gc, v__3514524_37, Nil);
+Obj v__3515066_37 = makeCons(co->gc, v__3514523_37, v__3515065_37);
+Obj v__3515067_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515066_37);
+Obj v__3515068_37 = makeCons(co->gc, v__3514526_37, Nil);
+Obj v__3515069_37 = makeCons(co->gc, v__3515068_37, Nil);
+Obj v__3515070_37 = makeCons(co->gc, v__3514525_37, v__3515069_37);
+Obj v__3515071_37 = makeCons(co->gc, v__3515067_37, v__3515070_37);
+Obj v__3515072_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515071_37);
+coraReturn(co, v__3515072_37);
 return;
 } else {
-Obj v__3515079_37 = PRIM_CAR(v__3514525_37);
-Obj v__3515080_37 = PRIM_EQ(v__3515079_37, getBinding(co, packageID, 153).name);
-if (True == v__3515080_37) {
+Obj v__3515073_37 = PRIM_CAR(v__3514523_37);
+Obj v__3515074_37 = PRIM_EQ(v__3515073_37, getBinding(co, packageID, 153).name);
+if (True == v__3515074_37) {
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v__3514525_37, v__3514526_37, v__3514527_37, v__3514528_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 119)), v__3514523_37, v__3514524_37, v__3514525_37, v__3514526_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -3266,50 +3266,50 @@ return;
 }
 } else {
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v__3514525_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 113)), makeCString(co->gc, "match fail "), v__3514523_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3515053_37= co->res;
-Obj v__3514526_37 = R[1];
-Obj v__3514527_37 = R[2];
-Obj v__3514528_37 = R[3];
-Obj v__3514525_37 = R[4];
-if (True == v__3515053_37) {
-Obj v__3515054_37 = PRIM_EQ(v__3514525_37, v__3514526_37);
-if (True == v__3515054_37) {
-coraReturn(co, v__3514527_37);
-return;
-} else {
-Obj v__3515055_37 = makeCons(co->gc, v__3514526_37, Nil);
-Obj v__3515056_37 = makeCons(co->gc, v__3514525_37, v__3515055_37);
-Obj v__3515057_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515056_37);
-Obj v__3515058_37 = makeCons(co->gc, v__3514528_37, Nil);
-Obj v__3515059_37 = makeCons(co->gc, v__3515058_37, Nil);
-Obj v__3515060_37 = makeCons(co->gc, v__3514527_37, v__3515059_37);
-Obj v__3515061_37 = makeCons(co->gc, v__3515057_37, v__3515060_37);
-Obj v__3515062_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515061_37);
-coraReturn(co, v__3515062_37);
-return;
-}
-} else {
-Obj v__3515063_37 = primIsSymbol(v__3514525_37);
-if (True == v__3515063_37) {
-Obj v__3515064_37 = makeCons(co->gc, v__3514527_37, Nil);
-Obj v__3515065_37 = makeCons(co->gc, v__3514526_37, v__3515064_37);
-Obj v__3515066_37 = makeCons(co->gc, v__3514525_37, v__3515065_37);
-Obj v__3515067_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515066_37);
-coraReturn(co, v__3515067_37);
-return;
-} else {
-R[1] = v__3514526_37;
-R[2] = v__3514527_37;
-R[3] = v__3514528_37;
-R[4] = v__3514525_37;
+Obj v__3515047_37= co->res;
+Obj v__3514524_37 = R[1];
+Obj v__3514525_37 = R[2];
+Obj v__3514526_37 = R[3];
+Obj v__3514523_37 = R[4];
+if (True == v__3515047_37) {
+Obj v__3515048_37 = PRIM_EQ(v__3514523_37, v__3514524_37);
+if (True == v__3515048_37) {
+coraReturn(co, v__3514525_37);
+return;
+} else {
+Obj v__3515049_37 = makeCons(co->gc, v__3514524_37, Nil);
+Obj v__3515050_37 = makeCons(co->gc, v__3514523_37, v__3515049_37);
+Obj v__3515051_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3515050_37);
+Obj v__3515052_37 = makeCons(co->gc, v__3514526_37, Nil);
+Obj v__3515053_37 = makeCons(co->gc, v__3515052_37, Nil);
+Obj v__3515054_37 = makeCons(co->gc, v__3514525_37, v__3515053_37);
+Obj v__3515055_37 = makeCons(co->gc, v__3515051_37, v__3515054_37);
+Obj v__3515056_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515055_37);
+coraReturn(co, v__3515056_37);
+return;
+}
+} else {
+Obj v__3515057_37 = primIsSymbol(v__3514523_37);
+if (True == v__3515057_37) {
+Obj v__3515058_37 = makeCons(co->gc, v__3514525_37, Nil);
+Obj v__3515059_37 = makeCons(co->gc, v__3514524_37, v__3515058_37);
+Obj v__3515060_37 = makeCons(co->gc, v__3514523_37, v__3515059_37);
+Obj v__3515061_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3515060_37);
+coraReturn(co, v__3515061_37);
+return;
+} else {
+R[1] = v__3514524_37;
+R[2] = v__3514525_37;
+R[3] = v__3514526_37;
+R[4] = v__3514523_37;
 saveCont(co, clofun38, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514525_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 152)), v__3514523_37);
 return;
 }
 }
@@ -3321,20 +3321,20 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514530_37 = R[1];
-R[1] = v__3514530_37;
+Obj v__3514528_37 = R[1];
+R[1] = v__3514528_37;
 saveCont(co, clofun37, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3514530_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 132)), v__3514528_37);
 return;
 }
 case 1:
 {
-Obj v__3515050_37= co->res;
-Obj v__3514530_37 = R[1];
-if (True == v__3515050_37) {
-Obj v__3515051_37 = primIsSymbol(v__3514530_37);
-Obj v__3515052_37 = primNot(v__3515051_37);
-if (True == v__3515052_37) {
+Obj v__3515044_37= co->res;
+Obj v__3514528_37 = R[1];
+if (True == v__3515044_37) {
+Obj v__3515045_37 = primIsSymbol(v__3514528_37);
+Obj v__3515046_37 = primNot(v__3515045_37);
+if (True == v__3515046_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3353,60 +3353,60 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514517_37 = R[1];
-Obj v__3514518_37 = R[2];
-Obj v__3514519_37 = R[3];
-Obj v__3514520_37 = R[4];
-R[1] = v__3514517_37;
-R[2] = v__3514519_37;
-R[3] = v__3514520_37;
-R[4] = v__3514518_37;
+Obj v__3514515_37 = R[1];
+Obj v__3514516_37 = R[2];
+Obj v__3514517_37 = R[3];
+Obj v__3514518_37 = R[4];
+R[1] = v__3514515_37;
+R[2] = v__3514517_37;
+R[3] = v__3514518_37;
+R[4] = v__3514516_37;
 saveCont(co, clofun36, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514515_37);
 return;
 }
 case 1:
 {
-Obj v__3515029_37= co->res;
-Obj v__3514741_37 = R[1];
-Obj v__3514519_37 = R[2];
-Obj v__3514520_37 = R[3];
-Obj v__3514518_37 = R[4];
-Obj v__3514742_37 = v__3515029_37;
-Obj v__3514745_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514741_37, v__3514742_37, v__3514518_37, v__3514519_37, v__3514520_37);
-Obj v__3515046_37 = PRIM_ISCONS(v__3514518_37);
-if (True == v__3515046_37) {
-Obj v__3515047_37 = PRIM_CAR(v__3514518_37);
-Obj v__3515048_37 = PRIM_EQ(v__3515047_37, getBinding(co, packageID, 153).name);
-if (True == v__3515048_37) {
+Obj v__3515023_37= co->res;
+Obj v__3514737_37 = R[1];
+Obj v__3514517_37 = R[2];
+Obj v__3514518_37 = R[3];
+Obj v__3514516_37 = R[4];
+Obj v__3514738_37 = v__3515023_37;
+Obj v__3514741_37 = makeNative(co->gc, 3, clofun35, 1, 5, v__3514737_37, v__3514738_37, v__3514516_37, v__3514517_37, v__3514518_37);
+Obj v__3515040_37 = PRIM_ISCONS(v__3514516_37);
+if (True == v__3515040_37) {
+Obj v__3515041_37 = PRIM_CAR(v__3514516_37);
+Obj v__3515042_37 = PRIM_EQ(v__3515041_37, getBinding(co, packageID, 153).name);
+if (True == v__3515042_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514745_37, True);
+coraCall1(co, v__3514741_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514745_37, False);
+coraCall1(co, v__3514741_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514745_37, False);
+coraCall1(co, v__3514741_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3515028_37= co->res;
-Obj v__3514517_37 = R[1];
-Obj v__3514519_37 = R[2];
-Obj v__3514520_37 = R[3];
-Obj v__3514518_37 = R[4];
-Obj v__3514741_37 = v__3515028_37;
-R[1] = v__3514741_37;
-R[2] = v__3514519_37;
-R[3] = v__3514520_37;
-R[4] = v__3514518_37;
+Obj v__3515022_37= co->res;
+Obj v__3514515_37 = R[1];
+Obj v__3514517_37 = R[2];
+Obj v__3514518_37 = R[3];
+Obj v__3514516_37 = R[4];
+Obj v__3514737_37 = v__3515022_37;
+R[1] = v__3514737_37;
+R[2] = v__3514517_37;
+R[3] = v__3514518_37;
+R[4] = v__3514516_37;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514517_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514515_37);
 return;
 }
 }
@@ -3416,72 +3416,72 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514744_37 = R[1];
-if (True == v__3514744_37) {
+Obj v__3514740_37 = R[1];
+if (True == v__3514740_37) {
 saveCont(co, clofun35, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), closureRef(R[0], 2));
 return;
 } else {
-Obj v__3515033_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3515034_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515033_37);
-Obj v__3515035_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3515036_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515035_37);
-Obj v__3515037_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3515038_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515037_37);
-R[1] = v__3515036_37;
-R[2] = v__3515034_37;
+Obj v__3515027_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3515028_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3515027_37);
+Obj v__3515029_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3515030_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3515029_37);
+Obj v__3515031_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3515032_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3515031_37);
+R[1] = v__3515030_37;
+R[2] = v__3515028_37;
 saveCont(co, clofun35, 5, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3515038_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3515032_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 }
 case 1:
 {
-Obj v__3515032_37= co->res;
-Obj v__3514746_37 = R[1];
+Obj v__3515026_37= co->res;
+Obj v__3514742_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514746_37, v__3515032_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3514742_37, v__3515026_37, closureRef(R[0], 4));
 return;
 }
 case 2:
 {
-Obj v__3515031_37= co->res;
-Obj v__3514746_37 = R[1];
-Obj v__3514747_37 = v__3515031_37;
-R[1] = v__3514746_37;
+Obj v__3515025_37= co->res;
+Obj v__3514742_37 = R[1];
+Obj v__3514743_37 = v__3515025_37;
+R[1] = v__3514742_37;
 saveCont(co, clofun35, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514747_37, closureRef(R[0], 3), closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 1), v__3514743_37, closureRef(R[0], 3), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3515030_37= co->res;
-Obj v__3514746_37 = v__3515030_37;
-R[1] = v__3514746_37;
+Obj v__3515024_37= co->res;
+Obj v__3514742_37 = v__3515024_37;
+R[1] = v__3514742_37;
 saveCont(co, clofun35, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), closureRef(R[0], 2));
 return;
 }
 case 4:
 {
-Obj v__3515040_37= co->res;
-Obj v__3515034_37 = R[1];
-Obj v__3515041_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
-Obj v__3515042_37 = makeCons(co->gc, v__3515041_37, Nil);
-Obj v__3515043_37 = makeCons(co->gc, v__3515040_37, v__3515042_37);
-Obj v__3515044_37 = makeCons(co->gc, v__3515034_37, v__3515043_37);
-Obj v__3515045_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515044_37);
-coraReturn(co, v__3515045_37);
+Obj v__3515034_37= co->res;
+Obj v__3515028_37 = R[1];
+Obj v__3515035_37 = makeCons(co->gc, closureRef(R[0], 4), Nil);
+Obj v__3515036_37 = makeCons(co->gc, v__3515035_37, Nil);
+Obj v__3515037_37 = makeCons(co->gc, v__3515034_37, v__3515036_37);
+Obj v__3515038_37 = makeCons(co->gc, v__3515028_37, v__3515037_37);
+Obj v__3515039_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515038_37);
+coraReturn(co, v__3515039_37);
 return;
 }
 case 5:
 {
-Obj v__3515039_37= co->res;
-Obj v__3515036_37 = R[1];
-Obj v__3515034_37 = R[2];
-R[1] = v__3515034_37;
+Obj v__3515033_37= co->res;
+Obj v__3515030_37 = R[1];
+Obj v__3515028_37 = R[2];
+R[1] = v__3515028_37;
 saveCont(co, clofun35, 4, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3515036_37, v__3515039_37, closureRef(R[0], 4));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 118)), closureRef(R[0], 0), v__3515030_37, v__3515033_37, closureRef(R[0], 4));
 return;
 }
 }
@@ -3491,10 +3491,10 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514516_37 = R[1];
-Obj v__3515026_37 = PRIM_CDR(v__3514516_37);
+Obj v__3514514_37 = R[1];
+Obj v__3515020_37 = PRIM_CDR(v__3514514_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3515026_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3515020_37);
 return;
 }
 }
@@ -3504,37 +3504,37 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514515_37 = R[1];
-Obj v__3515016_37 = PRIM_CDR(v__3514515_37);
-R[1] = v__3514515_37;
+Obj v__3514513_37 = R[1];
+Obj v__3515010_37 = PRIM_CDR(v__3514513_37);
+R[1] = v__3514513_37;
 saveCont(co, clofun33, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515016_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3515010_37);
 return;
 }
 case 1:
 {
-Obj v__3515021_37= co->res;
-Obj v__3515019_37 = R[1];
-Obj v__3515022_37 = makeCons(co->gc, v__3515021_37, Nil);
-Obj v__3515023_37 = makeCons(co->gc, v__3515019_37, v__3515022_37);
-Obj v__3515024_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515023_37);
-coraReturn(co, v__3515024_37);
+Obj v__3515015_37= co->res;
+Obj v__3515013_37 = R[1];
+Obj v__3515016_37 = makeCons(co->gc, v__3515015_37, Nil);
+Obj v__3515017_37 = makeCons(co->gc, v__3515013_37, v__3515016_37);
+Obj v__3515018_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3515017_37);
+coraReturn(co, v__3515018_37);
 return;
 }
 case 2:
 {
-Obj v__3515017_37= co->res;
-Obj v__3514515_37 = R[1];
-if (True == v__3515017_37) {
-Obj v__3515018_37 = PRIM_CAR(v__3514515_37);
-coraReturn(co, v__3515018_37);
+Obj v__3515011_37= co->res;
+Obj v__3514513_37 = R[1];
+if (True == v__3515011_37) {
+Obj v__3515012_37 = PRIM_CAR(v__3514513_37);
+coraReturn(co, v__3515012_37);
 return;
 } else {
-Obj v__3515019_37 = PRIM_CAR(v__3514515_37);
-Obj v__3515020_37 = PRIM_CDR(v__3514515_37);
-R[1] = v__3515019_37;
+Obj v__3515013_37 = PRIM_CAR(v__3514513_37);
+Obj v__3515014_37 = PRIM_CDR(v__3514513_37);
+R[1] = v__3515013_37;
 saveCont(co, clofun33, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3515020_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 121)), v__3515014_37);
 return;
 }
 }
@@ -3545,14 +3545,14 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514514_37 = R[1];
-Obj v__3515013_37 = PRIM_EQ(v__3514514_37, True);
-if (True == v__3515013_37) {
+Obj v__3514512_37 = R[1];
+Obj v__3515007_37 = PRIM_EQ(v__3514512_37, True);
+if (True == v__3515007_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3515014_37 = PRIM_EQ(v__3514514_37, False);
-if (True == v__3515014_37) {
+Obj v__3515008_37 = PRIM_EQ(v__3514512_37, False);
+if (True == v__3515008_37) {
 coraReturn(co, True);
 return;
 } else {
@@ -3568,10 +3568,10 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514513_37 = R[1];
-Obj v__3515011_37 = PRIM_CDR(v__3514513_37);
+Obj v__3514511_37 = R[1];
+Obj v__3515005_37 = PRIM_CDR(v__3514511_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3515011_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3515005_37);
 return;
 }
 }
@@ -3581,56 +3581,49 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514511_37 = R[1];
-Obj v__3514999_37 = PRIM_EQ(Nil, v__3514511_37);
-if (True == v__3514999_37) {
+Obj v__3514510_37 = R[1];
+Obj v__3514994_37 = PRIM_EQ(Nil, v__3514510_37);
+if (True == v__3514994_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3515000_37 = PRIM_CAR(v__3514511_37);
-Obj v__3515001_37 = PRIM_EQ(v__3515000_37, False);
-if (True == v__3515001_37) {
+Obj v__3514995_37 = PRIM_CAR(v__3514510_37);
+Obj v__3514996_37 = PRIM_EQ(v__3514995_37, False);
+if (True == v__3514996_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3515002_37 = PRIM_CDR(v__3514511_37);
-R[1] = v__3514511_37;
+Obj v__3514997_37 = PRIM_CAR(v__3514510_37);
+Obj v__3514998_37 = PRIM_CDR(v__3514510_37);
+R[1] = v__3514997_37;
 saveCont(co, clofun30, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3515002_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 124)), v__3514998_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3515003_37= co->res;
-Obj v__3514511_37 = R[1];
-Obj v__3514740_37 = v__3515003_37;
-Obj v__3515004_37 = PRIM_EQ(v__3514740_37, False);
-if (True == v__3515004_37) {
-coraReturn(co, False);
-return;
-} else {
-Obj v__3515005_37 = PRIM_CAR(v__3514511_37);
-Obj v__3515006_37 = makeCons(co->gc, False, Nil);
-Obj v__3515007_37 = makeCons(co->gc, v__3514740_37, v__3515006_37);
-Obj v__3515008_37 = makeCons(co->gc, v__3515005_37, v__3515007_37);
-Obj v__3515009_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515008_37);
-coraReturn(co, v__3515009_37);
+Obj v__3514999_37= co->res;
+Obj v__3514997_37 = R[1];
+Obj v__3515000_37 = makeCons(co->gc, False, Nil);
+Obj v__3515001_37 = makeCons(co->gc, v__3514999_37, v__3515000_37);
+Obj v__3515002_37 = makeCons(co->gc, v__3514997_37, v__3515001_37);
+Obj v__3515003_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3515002_37);
+coraReturn(co, v__3515003_37);
 return;
 }
 }
 }
-}
 
 static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514510_37 = R[1];
-Obj v__3514997_37 = PRIM_CDR(v__3514510_37);
+Obj v__3514509_37 = R[1];
+Obj v__3514992_37 = PRIM_CDR(v__3514509_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514997_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514992_37);
 return;
 }
 }
@@ -3641,58 +3634,51 @@ static void clofun28(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514508_37 = R[1];
-Obj v__3514985_37 = PRIM_EQ(v__3514508_37, Nil);
-if (True == v__3514985_37) {
+Obj v__3514981_37 = PRIM_EQ(v__3514508_37, Nil);
+if (True == v__3514981_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3514986_37 = PRIM_CAR(v__3514508_37);
-Obj v__3514987_37 = PRIM_EQ(v__3514986_37, True);
-if (True == v__3514987_37) {
+Obj v__3514982_37 = PRIM_CAR(v__3514508_37);
+Obj v__3514983_37 = PRIM_EQ(v__3514982_37, True);
+if (True == v__3514983_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514988_37 = PRIM_CDR(v__3514508_37);
-R[1] = v__3514508_37;
+Obj v__3514984_37 = PRIM_CAR(v__3514508_37);
+Obj v__3514985_37 = PRIM_CDR(v__3514508_37);
+R[1] = v__3514984_37;
 saveCont(co, clofun28, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514988_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 126)), v__3514985_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3514989_37= co->res;
-Obj v__3514508_37 = R[1];
-Obj v__3514739_37 = v__3514989_37;
-Obj v__3514990_37 = PRIM_EQ(v__3514739_37, True);
-if (True == v__3514990_37) {
-coraReturn(co, True);
-return;
-} else {
-Obj v__3514991_37 = PRIM_CAR(v__3514508_37);
-Obj v__3514992_37 = makeCons(co->gc, v__3514739_37, Nil);
-Obj v__3514993_37 = makeCons(co->gc, True, v__3514992_37);
-Obj v__3514994_37 = makeCons(co->gc, v__3514991_37, v__3514993_37);
-Obj v__3514995_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514994_37);
-coraReturn(co, v__3514995_37);
+Obj v__3514986_37= co->res;
+Obj v__3514984_37 = R[1];
+Obj v__3514987_37 = makeCons(co->gc, v__3514986_37, Nil);
+Obj v__3514988_37 = makeCons(co->gc, True, v__3514987_37);
+Obj v__3514989_37 = makeCons(co->gc, v__3514984_37, v__3514988_37);
+Obj v__3514990_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514989_37);
+coraReturn(co, v__3514990_37);
 return;
 }
 }
 }
-}
 
 static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
 Obj v__3514506_37 = R[1];
-Obj v__3514971_37 = PRIM_CDR(v__3514506_37);
-Obj v__3514972_37 = PRIM_EQ(Nil, v__3514971_37);
-if (True == v__3514972_37) {
-Obj v__3514973_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
-Obj v__3514974_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514973_37);
-coraReturn(co, v__3514974_37);
+Obj v__3514967_37 = PRIM_CDR(v__3514506_37);
+Obj v__3514968_37 = PRIM_EQ(Nil, v__3514967_37);
+if (True == v__3514968_37) {
+Obj v__3514969_37 = makeCons(co->gc, makeCString(co->gc, "no cond match"), Nil);
+Obj v__3514970_37 = makeCons(co->gc, getBinding(co, packageID, 128).name, v__3514969_37);
+coraReturn(co, v__3514970_37);
 return;
 } else {
 R[1] = v__3514506_37;
@@ -3703,38 +3689,38 @@ return;
 }
 case 1:
 {
-Obj v__3514978_37= co->res;
-Obj v__3514977_37 = R[1];
-Obj v__3514976_37 = R[2];
-Obj v__3514979_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514978_37);
-Obj v__3514980_37 = makeCons(co->gc, v__3514979_37, Nil);
-Obj v__3514981_37 = makeCons(co->gc, v__3514977_37, v__3514980_37);
-Obj v__3514982_37 = makeCons(co->gc, v__3514976_37, v__3514981_37);
-Obj v__3514983_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514982_37);
-coraReturn(co, v__3514983_37);
+Obj v__3514974_37= co->res;
+Obj v__3514973_37 = R[1];
+Obj v__3514972_37 = R[2];
+Obj v__3514975_37 = makeCons(co->gc, getBinding(co, packageID, 129).name, v__3514974_37);
+Obj v__3514976_37 = makeCons(co->gc, v__3514975_37, Nil);
+Obj v__3514977_37 = makeCons(co->gc, v__3514973_37, v__3514976_37);
+Obj v__3514978_37 = makeCons(co->gc, v__3514972_37, v__3514977_37);
+Obj v__3514979_37 = makeCons(co->gc, getBinding(co, packageID, 127).name, v__3514978_37);
+coraReturn(co, v__3514979_37);
 return;
 }
 case 2:
 {
-Obj v__3514977_37= co->res;
+Obj v__3514973_37= co->res;
 Obj v__3514506_37 = R[1];
-Obj v__3514976_37 = R[2];
-R[1] = v__3514977_37;
-R[2] = v__3514976_37;
+Obj v__3514972_37 = R[2];
+R[1] = v__3514973_37;
+R[2] = v__3514972_37;
 saveCont(co, clofun27, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514506_37);
 return;
 }
 case 3:
 {
-Obj v__3514975_37= co->res;
+Obj v__3514971_37= co->res;
 Obj v__3514506_37 = R[1];
-Obj v__3514738_37 = v__3514975_37;
-Obj v__3514976_37 = PRIM_CAR(v__3514738_37);
+Obj v__3514736_37 = v__3514971_37;
+Obj v__3514972_37 = PRIM_CAR(v__3514736_37);
 R[1] = v__3514506_37;
-R[2] = v__3514976_37;
+R[2] = v__3514972_37;
 saveCont(co, clofun27, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514738_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514736_37);
 return;
 }
 }
@@ -3745,9 +3731,9 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514505_37 = R[1];
-Obj v__3514969_37 = PRIM_CDR(v__3514505_37);
+Obj v__3514965_37 = PRIM_CDR(v__3514505_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514969_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514965_37);
 return;
 }
 }
@@ -3758,58 +3744,58 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514504_37 = R[1];
-Obj v__3514957_37 = PRIM_CDR(v__3514504_37);
+Obj v__3514953_37 = PRIM_CDR(v__3514504_37);
 R[1] = v__3514504_37;
 saveCont(co, clofun25, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514957_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 162)), v__3514953_37);
 return;
 }
 case 1:
 {
-Obj v__3514963_37= co->res;
-Obj v__3514961_37 = R[1];
-Obj v__3514960_37 = R[2];
-Obj v__3514964_37 = makeCons(co->gc, v__3514963_37, Nil);
-Obj v__3514965_37 = makeCons(co->gc, v__3514961_37, v__3514964_37);
-Obj v__3514966_37 = makeCons(co->gc, v__3514960_37, v__3514965_37);
-Obj v__3514967_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514966_37);
-coraReturn(co, v__3514967_37);
+Obj v__3514959_37= co->res;
+Obj v__3514957_37 = R[1];
+Obj v__3514956_37 = R[2];
+Obj v__3514960_37 = makeCons(co->gc, v__3514959_37, Nil);
+Obj v__3514961_37 = makeCons(co->gc, v__3514957_37, v__3514960_37);
+Obj v__3514962_37 = makeCons(co->gc, v__3514956_37, v__3514961_37);
+Obj v__3514963_37 = makeCons(co->gc, getBinding(co, packageID, 130).name, v__3514962_37);
+coraReturn(co, v__3514963_37);
 return;
 }
 case 2:
 {
-Obj v__3514962_37= co->res;
-Obj v__3514961_37 = R[1];
-Obj v__3514960_37 = R[2];
-R[1] = v__3514961_37;
-R[2] = v__3514960_37;
+Obj v__3514958_37= co->res;
+Obj v__3514957_37 = R[1];
+Obj v__3514956_37 = R[2];
+R[1] = v__3514957_37;
+R[2] = v__3514956_37;
 saveCont(co, clofun25, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514962_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3514958_37);
 return;
 }
 case 3:
 {
-Obj v__3514961_37= co->res;
+Obj v__3514957_37= co->res;
 Obj v__3514504_37 = R[1];
-Obj v__3514960_37 = R[2];
-R[1] = v__3514961_37;
-R[2] = v__3514960_37;
+Obj v__3514956_37 = R[2];
+R[1] = v__3514957_37;
+R[2] = v__3514956_37;
 saveCont(co, clofun25, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 158)), v__3514504_37);
 return;
 }
 case 4:
 {
-Obj v__3514958_37= co->res;
+Obj v__3514954_37= co->res;
 Obj v__3514504_37 = R[1];
-if (True == v__3514958_37) {
-Obj v__3514959_37 = PRIM_CAR(v__3514504_37);
-coraReturn(co, v__3514959_37);
+if (True == v__3514954_37) {
+Obj v__3514955_37 = PRIM_CAR(v__3514504_37);
+coraReturn(co, v__3514955_37);
 return;
 } else {
-Obj v__3514960_37 = PRIM_CAR(v__3514504_37);
+Obj v__3514956_37 = PRIM_CAR(v__3514504_37);
 R[1] = v__3514504_37;
-R[2] = v__3514960_37;
+R[2] = v__3514956_37;
 saveCont(co, clofun25, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514504_37);
 return;
@@ -3823,9 +3809,9 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514503_37 = R[1];
-Obj v__3514954_37 = PRIM_ISCONS(v__3514503_37);
-Obj v__3514955_37 = primNot(v__3514954_37);
-coraReturn(co, v__3514955_37);
+Obj v__3514950_37 = PRIM_ISCONS(v__3514503_37);
+Obj v__3514951_37 = primNot(v__3514950_37);
+coraReturn(co, v__3514951_37);
 return;
 }
 }
@@ -3837,17 +3823,17 @@ case 0:
 {
 Obj v__3514501_37 = R[1];
 Obj v__3514502_37 = R[2];
-Obj v__3514949_37 = PRIM_ISCONS(v__3514502_37);
-if (True == v__3514949_37) {
-Obj v__3514950_37 = PRIM_CAR(v__3514502_37);
-Obj v__3514951_37 = PRIM_EQ(v__3514950_37, v__3514501_37);
-if (True == v__3514951_37) {
+Obj v__3514945_37 = PRIM_ISCONS(v__3514502_37);
+if (True == v__3514945_37) {
+Obj v__3514946_37 = PRIM_CAR(v__3514502_37);
+Obj v__3514947_37 = PRIM_EQ(v__3514946_37, v__3514501_37);
+if (True == v__3514947_37) {
 coraReturn(co, True);
 return;
 } else {
-Obj v__3514952_37 = PRIM_CDR(v__3514502_37);
+Obj v__3514948_37 = PRIM_CDR(v__3514502_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514501_37, v__3514952_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 133)), v__3514501_37, v__3514948_37);
 return;
 }
 } else {
@@ -3870,35 +3856,35 @@ return;
 }
 case 1:
 {
-Obj v__3514941_37= co->res;
-Obj v__3514940_37 = R[1];
-Obj v__3514939_37 = R[2];
-Obj v__3514942_37 = makeCons(co->gc, v__3514941_37, Nil);
-Obj v__3514943_37 = makeCons(co->gc, v__3514940_37, v__3514942_37);
-Obj v__3514944_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514943_37);
-Obj v__3514945_37 = makeCons(co->gc, v__3514944_37, Nil);
-Obj v__3514946_37 = makeCons(co->gc, v__3514939_37, v__3514945_37);
-Obj v__3514947_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3514946_37);
-coraReturn(co, v__3514947_37);
+Obj v__3514937_37= co->res;
+Obj v__3514936_37 = R[1];
+Obj v__3514935_37 = R[2];
+Obj v__3514938_37 = makeCons(co->gc, v__3514937_37, Nil);
+Obj v__3514939_37 = makeCons(co->gc, v__3514936_37, v__3514938_37);
+Obj v__3514940_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514939_37);
+Obj v__3514941_37 = makeCons(co->gc, v__3514940_37, Nil);
+Obj v__3514942_37 = makeCons(co->gc, v__3514935_37, v__3514941_37);
+Obj v__3514943_37 = makeCons(co->gc, getBinding(co, packageID, 134).name, v__3514942_37);
+coraReturn(co, v__3514943_37);
 return;
 }
 case 2:
 {
-Obj v__3514940_37= co->res;
+Obj v__3514936_37= co->res;
 Obj v__3514500_37 = R[1];
-Obj v__3514939_37 = R[2];
-R[1] = v__3514940_37;
-R[2] = v__3514939_37;
+Obj v__3514935_37 = R[2];
+R[1] = v__3514936_37;
+R[2] = v__3514935_37;
 saveCont(co, clofun22, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 156)), v__3514500_37);
 return;
 }
 case 3:
 {
-Obj v__3514939_37= co->res;
+Obj v__3514935_37= co->res;
 Obj v__3514500_37 = R[1];
 R[1] = v__3514500_37;
-R[2] = v__3514939_37;
+R[2] = v__3514935_37;
 saveCont(co, clofun22, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514500_37);
 return;
@@ -3911,9 +3897,9 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514499_37 = R[1];
-Obj v__3514937_37 = PRIM_CDR(v__3514499_37);
+Obj v__3514933_37 = PRIM_CDR(v__3514499_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514937_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514933_37);
 return;
 }
 }
@@ -3931,36 +3917,36 @@ return;
 }
 case 1:
 {
-Obj v__3514929_37= co->res;
-Obj v__3514928_37 = R[1];
-Obj v__3514927_37 = R[2];
-Obj v__3514930_37 = makeCons(co->gc, v__3514928_37, v__3514929_37);
-Obj v__3514931_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514930_37);
-Obj v__3514932_37 = makeCons(co->gc, v__3514931_37, Nil);
-Obj v__3514933_37 = makeCons(co->gc, v__3514927_37, v__3514932_37);
-Obj v__3514934_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3514933_37);
-coraReturn(co, v__3514934_37);
+Obj v__3514925_37= co->res;
+Obj v__3514924_37 = R[1];
+Obj v__3514923_37 = R[2];
+Obj v__3514926_37 = makeCons(co->gc, v__3514924_37, v__3514925_37);
+Obj v__3514927_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514926_37);
+Obj v__3514928_37 = makeCons(co->gc, v__3514927_37, Nil);
+Obj v__3514929_37 = makeCons(co->gc, v__3514923_37, v__3514928_37);
+Obj v__3514930_37 = makeCons(co->gc, getBinding(co, packageID, 145).name, v__3514929_37);
+coraReturn(co, v__3514930_37);
 return;
 }
 case 2:
 {
-Obj v__3514928_37= co->res;
+Obj v__3514924_37= co->res;
 Obj v__3514498_37 = R[1];
-Obj v__3514927_37 = R[2];
-R[1] = v__3514928_37;
-R[2] = v__3514927_37;
+Obj v__3514923_37 = R[2];
+R[1] = v__3514924_37;
+R[2] = v__3514923_37;
 saveCont(co, clofun20, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 155)), v__3514498_37);
 return;
 }
 case 3:
 {
-Obj v__3514925_37= co->res;
+Obj v__3514921_37= co->res;
 Obj v__3514498_37 = R[1];
-Obj v__3514926_37 = makeCons(co->gc, v__3514925_37, Nil);
-Obj v__3514927_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514926_37);
+Obj v__3514922_37 = makeCons(co->gc, v__3514921_37, Nil);
+Obj v__3514923_37 = makeCons(co->gc, getBinding(co, packageID, 140).name, v__3514922_37);
 R[1] = v__3514498_37;
-R[2] = v__3514927_37;
+R[2] = v__3514923_37;
 saveCont(co, clofun20, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514498_37);
 return;
@@ -3973,26 +3959,26 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514495_37 = R[1];
-Obj v__3514907_37 = PRIM_ISCONS(v__3514495_37);
-if (True == v__3514907_37) {
-Obj v__3514908_37 = PRIM_CAR(v__3514495_37);
-Obj v__3514909_37 = PRIM_EQ(v__3514908_37, globalRef(co, getBinding(co, packageID, 146)));
-if (True == v__3514909_37) {
-Obj v__3514910_37 = PRIM_CDR(v__3514495_37);
-coraReturn(co, v__3514910_37);
-return;
-} else {
-Obj v__3514911_37 = PRIM_CAR(v__3514495_37);
-Obj v__3514912_37 = PRIM_EQ(v__3514911_37, getBinding(co, packageID, 141).name);
-if (True == v__3514912_37) {
+Obj v__3514903_37 = PRIM_ISCONS(v__3514495_37);
+if (True == v__3514903_37) {
+Obj v__3514904_37 = PRIM_CAR(v__3514495_37);
+Obj v__3514905_37 = PRIM_EQ(v__3514904_37, globalRef(co, getBinding(co, packageID, 146)));
+if (True == v__3514905_37) {
+Obj v__3514906_37 = PRIM_CDR(v__3514495_37);
+coraReturn(co, v__3514906_37);
+return;
+} else {
+Obj v__3514907_37 = PRIM_CAR(v__3514495_37);
+Obj v__3514908_37 = PRIM_EQ(v__3514907_37, getBinding(co, packageID, 141).name);
+if (True == v__3514908_37) {
 R[1] = v__3514495_37;
 saveCont(co, clofun19, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 161)), v__3514495_37);
 return;
 } else {
-Obj v__3514919_37 = PRIM_CAR(v__3514495_37);
-Obj v__3514920_37 = PRIM_EQ(v__3514919_37, getBinding(co, packageID, 140).name);
-if (True == v__3514920_37) {
+Obj v__3514915_37 = PRIM_CAR(v__3514495_37);
+Obj v__3514916_37 = PRIM_EQ(v__3514915_37, getBinding(co, packageID, 140).name);
+if (True == v__3514916_37) {
 coraReturn(co, v__3514495_37);
 return;
 } else {
@@ -4010,38 +3996,38 @@ return;
 }
 case 1:
 {
-Obj v__3514915_37= co->res;
-Obj v__3514913_37 = R[1];
-Obj v__3514916_37 = makeCons(co->gc, v__3514915_37, Nil);
-Obj v__3514917_37 = makeCons(co->gc, v__3514913_37, v__3514916_37);
-Obj v__3514918_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514917_37);
-coraReturn(co, v__3514918_37);
+Obj v__3514911_37= co->res;
+Obj v__3514909_37 = R[1];
+Obj v__3514912_37 = makeCons(co->gc, v__3514911_37, Nil);
+Obj v__3514913_37 = makeCons(co->gc, v__3514909_37, v__3514912_37);
+Obj v__3514914_37 = makeCons(co->gc, getBinding(co, packageID, 141).name, v__3514913_37);
+coraReturn(co, v__3514914_37);
 return;
 }
 case 2:
 {
-Obj v__3514914_37= co->res;
-Obj v__3514913_37 = R[1];
-R[1] = v__3514913_37;
+Obj v__3514910_37= co->res;
+Obj v__3514909_37 = R[1];
+R[1] = v__3514909_37;
 saveCont(co, clofun19, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514914_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 142)), v__3514910_37);
 return;
 }
 case 3:
 {
-Obj v__3514913_37= co->res;
+Obj v__3514909_37= co->res;
 Obj v__3514495_37 = R[1];
-R[1] = v__3514913_37;
+R[1] = v__3514909_37;
 saveCont(co, clofun19, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 157)), v__3514495_37);
 return;
 }
 case 4:
 {
-Obj v__3514922_37= co->res;
+Obj v__3514918_37= co->res;
 Obj v__3514495_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514495_37), v__3514922_37);
+coraCall1(co, makeNative(co->gc, 2, clofun18, 1, 1, v__3514495_37), v__3514918_37);
 return;
 }
 }
@@ -4052,8 +4038,8 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514497_37 = R[1];
-Obj v__3514921_37 = PRIM_EQ(v__3514497_37, closureRef(R[0], 0));
-if (True == v__3514921_37) {
+Obj v__3514917_37 = PRIM_EQ(v__3514497_37, closureRef(R[0], 0));
+if (True == v__3514917_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 148)), globalRef(co, getBinding(co, packageID, 142)), v__3514497_37);
 return;
@@ -4084,14 +4070,14 @@ case 0:
 {
 Obj v__3514490_37 = R[1];
 Obj v__3514491_37 = R[2];
-Obj v__3514897_37 = PRIM_EQ(Nil, v__3514491_37);
-if (True == v__3514897_37) {
+Obj v__3514893_37 = PRIM_EQ(Nil, v__3514491_37);
+if (True == v__3514893_37) {
 coraReturn(co, v__3514490_37);
 return;
 } else {
-Obj v__3514904_37 = PRIM_CAR(v__3514491_37);
+Obj v__3514900_37 = PRIM_CAR(v__3514491_37);
 co->ctx.sp = R;
-coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514491_37, v__3514490_37), v__3514904_37);
+coraCall1(co, makeNative(co->gc, 2, clofun15, 1, 2, v__3514491_37, v__3514490_37), v__3514900_37);
 return;
 }
 }
@@ -4103,24 +4089,24 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514493_37 = R[1];
-Obj v__3514737_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514493_37, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3514900_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3514900_37) {
-Obj v__3514901_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3514902_37 = PRIM_CAR(v__3514493_37);
-Obj v__3514903_37 = PRIM_EQ(v__3514901_37, v__3514902_37);
-if (True == v__3514903_37) {
+Obj v__3514735_37 = makeNative(co->gc, 2, clofun14, 1, 3, v__3514493_37, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3514896_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3514896_37) {
+Obj v__3514897_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3514898_37 = PRIM_CAR(v__3514493_37);
+Obj v__3514899_37 = PRIM_EQ(v__3514897_37, v__3514898_37);
+if (True == v__3514899_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3514737_37, True);
+coraCall1(co, v__3514735_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514737_37, False);
+coraCall1(co, v__3514735_37, False);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3514737_37, False);
+coraCall1(co, v__3514735_37, False);
 return;
 }
 }
@@ -4131,16 +4117,16 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3514736_37 = R[1];
-if (True == v__3514736_37) {
-Obj v__3514898_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3514734_37 = R[1];
+if (True == v__3514734_37) {
+Obj v__3514894_37 = PRIM_CDR(closureRef(R[0], 0));
 co->ctx.sp = R;
-coraCall1(co, v__3514898_37, closureRef(R[0], 1));
+coraCall1(co, v__3514894_37, closureRef(R[0], 1));
 return;
 } else {
-Obj v__3514899_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3514895_37 = PRIM_CDR(closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3514899_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 144)), closureRef(R[0], 1), v__3514895_37);
 return;
 }
 }
@@ -4153,10 +4139,10 @@ case 0:
 {
 Obj v__3514488_37 = R[1];
 Obj v__3514489_37 = R[2];
-Obj v__3514893_37 = makeCons(co->gc, v__3514488_37, v__3514489_37);
-Obj v__3514894_37 = makeCons(co->gc, v__3514893_37, globalRef(co, getBinding(co, packageID, 147)));
-Obj v__3514895_37 = primSet(co, getBinding(co, packageID, 147).name, v__3514894_37);
-coraReturn(co, v__3514895_37);
+Obj v__3514889_37 = makeCons(co->gc, v__3514488_37, v__3514489_37);
+Obj v__3514890_37 = makeCons(co->gc, v__3514889_37, globalRef(co, getBinding(co, packageID, 147)));
+Obj v__3514891_37 = primSet(co, getBinding(co, packageID, 147).name, v__3514890_37);
+coraReturn(co, v__3514891_37);
 return;
 }
 }
@@ -4182,14 +4168,14 @@ case 0:
 Obj v__3514483_37 = R[1];
 Obj v__3514484_37 = R[2];
 Obj v__3514485_37 = R[3];
-Obj v__3514883_37 = PRIM_ISCONS(v__3514485_37);
-if (True == v__3514883_37) {
-Obj v__3514884_37 = PRIM_CAR(v__3514485_37);
+Obj v__3514879_37 = PRIM_ISCONS(v__3514485_37);
+if (True == v__3514879_37) {
+Obj v__3514880_37 = PRIM_CAR(v__3514485_37);
 R[1] = v__3514483_37;
 R[2] = v__3514485_37;
 R[3] = v__3514484_37;
 saveCont(co, clofun11, 1, R);
-coraCall1(co, v__3514484_37, v__3514884_37);
+coraCall1(co, v__3514484_37, v__3514880_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4199,14 +4185,14 @@ return;
 }
 case 1:
 {
-Obj v__3514885_37= co->res;
+Obj v__3514881_37= co->res;
 Obj v__3514483_37 = R[1];
 Obj v__3514485_37 = R[2];
 Obj v__3514484_37 = R[3];
-Obj v__3514886_37 = makeCons(co->gc, v__3514885_37, v__3514483_37);
-Obj v__3514887_37 = PRIM_CDR(v__3514485_37);
+Obj v__3514882_37 = makeCons(co->gc, v__3514881_37, v__3514483_37);
+Obj v__3514883_37 = PRIM_CDR(v__3514485_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3514886_37, v__3514484_37, v__3514887_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 149)), v__3514882_37, v__3514484_37, v__3514883_37);
 return;
 }
 }
@@ -4218,13 +4204,13 @@ case 0:
 {
 Obj v__3514481_37 = R[1];
 Obj v__3514482_37 = R[2];
-Obj v__3514876_37 = PRIM_ISCONS(v__3514482_37);
-if (True == v__3514876_37) {
-Obj v__3514877_37 = PRIM_CAR(v__3514482_37);
-Obj v__3514878_37 = makeCons(co->gc, v__3514877_37, v__3514481_37);
-Obj v__3514879_37 = PRIM_CDR(v__3514482_37);
+Obj v__3514872_37 = PRIM_ISCONS(v__3514482_37);
+if (True == v__3514872_37) {
+Obj v__3514873_37 = PRIM_CAR(v__3514482_37);
+Obj v__3514874_37 = makeCons(co->gc, v__3514873_37, v__3514481_37);
+Obj v__3514875_37 = PRIM_CDR(v__3514482_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3514878_37, v__3514879_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 151)), v__3514874_37, v__3514875_37);
 return;
 } else {
 coraReturn(co, v__3514481_37);
@@ -4239,8 +4225,8 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514480_37 = R[1];
-Obj v__3514874_37 = PRIM_ISCONS(v__3514480_37);
-coraReturn(co, v__3514874_37);
+Obj v__3514870_37 = PRIM_ISCONS(v__3514480_37);
+coraReturn(co, v__3514870_37);
 return;
 }
 }
@@ -4251,13 +4237,13 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514479_37 = R[1];
-Obj v__3514866_37 = PRIM_ISCONS(v__3514479_37);
-if (True == v__3514866_37) {
-Obj v__3514867_37 = PRIM_CAR(v__3514479_37);
-Obj v__3514868_37 = PRIM_CDR(v__3514479_37);
-R[1] = v__3514867_37;
+Obj v__3514862_37 = PRIM_ISCONS(v__3514479_37);
+if (True == v__3514862_37) {
+Obj v__3514863_37 = PRIM_CAR(v__3514479_37);
+Obj v__3514864_37 = PRIM_CDR(v__3514479_37);
+R[1] = v__3514863_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514868_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 154)), v__3514864_37);
 return;
 } else {
 coraReturn(co, Nil);
@@ -4266,12 +4252,12 @@ return;
 }
 case 1:
 {
-Obj v__3514869_37= co->res;
-Obj v__3514867_37 = R[1];
-Obj v__3514870_37 = makeCons(co->gc, v__3514869_37, Nil);
-Obj v__3514871_37 = makeCons(co->gc, v__3514867_37, v__3514870_37);
-Obj v__3514872_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514871_37);
-coraReturn(co, v__3514872_37);
+Obj v__3514865_37= co->res;
+Obj v__3514863_37 = R[1];
+Obj v__3514866_37 = makeCons(co->gc, v__3514865_37, Nil);
+Obj v__3514867_37 = makeCons(co->gc, v__3514863_37, v__3514866_37);
+Obj v__3514868_37 = makeCons(co->gc, getBinding(co, packageID, 153).name, v__3514867_37);
+coraReturn(co, v__3514868_37);
 return;
 }
 }
@@ -4282,10 +4268,10 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514478_37 = R[1];
-Obj v__3514862_37 = PRIM_CDR(v__3514478_37);
-Obj v__3514863_37 = PRIM_CDR(v__3514862_37);
-Obj v__3514864_37 = PRIM_CDR(v__3514863_37);
-coraReturn(co, v__3514864_37);
+Obj v__3514858_37 = PRIM_CDR(v__3514478_37);
+Obj v__3514859_37 = PRIM_CDR(v__3514858_37);
+Obj v__3514860_37 = PRIM_CDR(v__3514859_37);
+coraReturn(co, v__3514860_37);
 return;
 }
 }
@@ -4296,11 +4282,11 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514477_37 = R[1];
-Obj v__3514857_37 = PRIM_CDR(v__3514477_37);
-Obj v__3514858_37 = PRIM_CDR(v__3514857_37);
-Obj v__3514859_37 = PRIM_CDR(v__3514858_37);
-Obj v__3514860_37 = PRIM_CAR(v__3514859_37);
-coraReturn(co, v__3514860_37);
+Obj v__3514853_37 = PRIM_CDR(v__3514477_37);
+Obj v__3514854_37 = PRIM_CDR(v__3514853_37);
+Obj v__3514855_37 = PRIM_CDR(v__3514854_37);
+Obj v__3514856_37 = PRIM_CAR(v__3514855_37);
+coraReturn(co, v__3514856_37);
 return;
 }
 }
@@ -4311,10 +4297,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514476_37 = R[1];
-Obj v__3514853_37 = PRIM_CDR(v__3514476_37);
-Obj v__3514854_37 = PRIM_CDR(v__3514853_37);
-Obj v__3514855_37 = PRIM_CAR(v__3514854_37);
-coraReturn(co, v__3514855_37);
+Obj v__3514849_37 = PRIM_CDR(v__3514476_37);
+Obj v__3514850_37 = PRIM_CDR(v__3514849_37);
+Obj v__3514851_37 = PRIM_CAR(v__3514850_37);
+coraReturn(co, v__3514851_37);
 return;
 }
 }
@@ -4325,9 +4311,9 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514475_37 = R[1];
-Obj v__3514850_37 = PRIM_CDR(v__3514475_37);
-Obj v__3514851_37 = PRIM_CDR(v__3514850_37);
-coraReturn(co, v__3514851_37);
+Obj v__3514846_37 = PRIM_CDR(v__3514475_37);
+Obj v__3514847_37 = PRIM_CDR(v__3514846_37);
+coraReturn(co, v__3514847_37);
 return;
 }
 }
@@ -4338,9 +4324,9 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514474_37 = R[1];
-Obj v__3514847_37 = PRIM_CAR(v__3514474_37);
-Obj v__3514848_37 = PRIM_CDR(v__3514847_37);
-coraReturn(co, v__3514848_37);
+Obj v__3514843_37 = PRIM_CAR(v__3514474_37);
+Obj v__3514844_37 = PRIM_CDR(v__3514843_37);
+coraReturn(co, v__3514844_37);
 return;
 }
 }
@@ -4351,9 +4337,9 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514473_37 = R[1];
-Obj v__3514844_37 = PRIM_CAR(v__3514473_37);
-Obj v__3514845_37 = PRIM_CAR(v__3514844_37);
-coraReturn(co, v__3514845_37);
+Obj v__3514840_37 = PRIM_CAR(v__3514473_37);
+Obj v__3514841_37 = PRIM_CAR(v__3514840_37);
+coraReturn(co, v__3514841_37);
 return;
 }
 }
@@ -4364,9 +4350,9 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514472_37 = R[1];
-Obj v__3514841_37 = PRIM_CDR(v__3514472_37);
-Obj v__3514842_37 = PRIM_CAR(v__3514841_37);
-coraReturn(co, v__3514842_37);
+Obj v__3514837_37 = PRIM_CDR(v__3514472_37);
+Obj v__3514838_37 = PRIM_CAR(v__3514837_37);
+coraReturn(co, v__3514838_37);
 return;
 }
 }
@@ -4377,8 +4363,8 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
 case 0:
 {
 Obj v__3514471_37 = R[1];
-Obj v__3514839_37 = PRIM_EQ(v__3514471_37, Nil);
-coraReturn(co, v__3514839_37);
+Obj v__3514835_37 = PRIM_EQ(v__3514471_37, Nil);
+coraReturn(co, v__3514835_37);
 return;
 }
 }
diff --git a/init.cora b/init.cora
index 259e193..9d1c3bd 100644
--- a/init.cora
+++ b/init.cora
@@ -139,10 +139,7 @@
       false
     (if (= (car l) true)
         true
-      (let more (cora/init#rewrite-or (cdr l))
-           (if (= more true)
-               true
-             (list 'if (car l) true more))))))
+      (list 'if (car l) true (cora/init#rewrite-or (cdr l))))))
 
 (defmacro or (exp)
   (cora/init#rewrite-or (cdr exp)))
@@ -152,10 +149,7 @@
       true
     (if (= (car l) false)
         false
-      (let more (cora/init#rewrite-and (cdr l))
-           (if (= more false)
-               false
-             (list 'if (car l) more false))))))
+      (list 'if (car l) (cora/init#rewrite-and (cdr l)) false))))
 
 (defmacro and (exp)
   (cora/init#rewrite-and (cdr exp)))
diff --git a/lib/toc.c b/lib/toc.c
index 2db7302..ec39739 100644
--- a/lib/toc.c
+++ b/lib/toc.c
@@ -303,153 +303,153 @@ return;
 }
 case 1:
 {
-Obj v__3521600_37= co->res;
-Obj v__3521606_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun113, 2, 0));
-Obj v__3521612_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun114, 2, 0));
-Obj v__3521634_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun116, 3, 0));
-Obj v__3521658_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun118, 4, 0));
-Obj v__3521670_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun121, 3, 0));
-Obj v__3521711_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun126, 1, 0));
-Obj v__3521750_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun129, 4, 0));
-Obj v__3521802_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun134, 2, 0));
-Obj v__3521803_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun135, 2, 0));
-Obj v__3521817_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun143, 1, 0));
-Obj v__3521818_37 = primSet(co, getBinding(co, packageID, 7).name, False);
-Obj v__3521831_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun145, 1, 0));
-Obj v__3521841_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun146, 2, 0));
-coraReturn(co, v__3521841_37);
+Obj v__3521588_37= co->res;
+Obj v__3521594_37 = primSet(co, getBinding(co, packageID, 28).name, makeNative(co->gc, 3, clofun113, 2, 0));
+Obj v__3521600_37 = primSet(co, getBinding(co, packageID, 27).name, makeNative(co->gc, 3, clofun114, 2, 0));
+Obj v__3521622_37 = primSet(co, getBinding(co, packageID, 26).name, makeNative(co->gc, 7, clofun116, 3, 0));
+Obj v__3521646_37 = primSet(co, getBinding(co, packageID, 25).name, makeNative(co->gc, 5, clofun118, 4, 0));
+Obj v__3521658_37 = primSet(co, getBinding(co, packageID, 23).name, makeNative(co->gc, 5, clofun121, 3, 0));
+Obj v__3521699_37 = primSet(co, getBinding(co, packageID, 22).name, makeNative(co->gc, 2, clofun126, 1, 0));
+Obj v__3521738_37 = primSet(co, getBinding(co, packageID, 17).name, makeNative(co->gc, 5, clofun129, 4, 0));
+Obj v__3521790_37 = primSet(co, getBinding(co, packageID, 9).name, makeNative(co->gc, 3, clofun134, 2, 0));
+Obj v__3521791_37 = primSet(co, getBinding(co, packageID, 8).name, makeNative(co->gc, 3, clofun135, 2, 0));
+Obj v__3521805_37 = primSet(co, getBinding(co, packageID, 6).name, makeNative(co->gc, 2, clofun143, 1, 0));
+Obj v__3521806_37 = primSet(co, getBinding(co, packageID, 7).name, False);
+Obj v__3521819_37 = primSet(co, getBinding(co, packageID, 5).name, makeNative(co->gc, 3, clofun145, 1, 0));
+Obj v__3521829_37 = primSet(co, getBinding(co, packageID, 3).name, makeNative(co->gc, 4, clofun146, 2, 0));
+coraReturn(co, v__3521829_37);
 return;
 }
 case 2:
 {
-Obj v__3520183_37= co->res;
-Obj v__3520184_37 = primSet(co, getBinding(co, packageID, 130).name, Nil);
-Obj v__3520199_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
-Obj v__3520205_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
-Obj v__3520215_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
-Obj v__3520216_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
-Obj v__3520223_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
-Obj v__3520224_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
-Obj v__3520225_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520224_37);
-Obj v__3520226_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3520225_37);
-Obj v__3520227_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
-Obj v__3520228_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520227_37);
-Obj v__3520229_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520228_37);
-Obj v__3520230_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
-Obj v__3520231_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520230_37);
-Obj v__3520232_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520231_37);
-Obj v__3520233_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3520171_37= co->res;
+Obj v__3520172_37 = primSet(co, getBinding(co, packageID, 130).name, Nil);
+Obj v__3520187_37 = primSet(co, getBinding(co, packageID, 129).name, makeNative(co->gc, 3, clofun1, 2, 0));
+Obj v__3520193_37 = primSet(co, getBinding(co, packageID, 127).name, makeNative(co->gc, 4, clofun2, 3, 0));
+Obj v__3520203_37 = primSet(co, getBinding(co, packageID, 126).name, makeNative(co->gc, 4, clofun4, 3, 0));
+Obj v__3520204_37 = primSet(co, getBinding(co, packageID, 125).name, makeNative(co->gc, 3, clofun5, 2, 0));
+Obj v__3520211_37 = primSet(co, getBinding(co, packageID, 124).name, makeNative(co->gc, 3, clofun6, 2, 0));
+Obj v__3520212_37 = makeCons(co->gc, makeCString(co->gc, "primSet"), Nil);
+Obj v__3520213_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520212_37);
+Obj v__3520214_37 = makeCons(co->gc, getBinding(co, packageID, 122).name, v__3520213_37);
+Obj v__3520215_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CAR"), Nil);
+Obj v__3520216_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520215_37);
+Obj v__3520217_37 = makeCons(co->gc, getBinding(co, packageID, 121).name, v__3520216_37);
+Obj v__3520218_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_CDR"), Nil);
+Obj v__3520219_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520218_37);
+Obj v__3520220_37 = makeCons(co->gc, getBinding(co, packageID, 120).name, v__3520219_37);
+Obj v__3520221_37 = makeCons(co->gc, makeCString(co->gc, "makeCons"), Nil);
+Obj v__3520222_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520221_37);
+Obj v__3520223_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520222_37);
+Obj v__3520224_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
+Obj v__3520225_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520224_37);
+Obj v__3520226_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520225_37);
+Obj v__3520227_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3520228_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520227_37);
+Obj v__3520229_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520228_37);
+Obj v__3520230_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3520231_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520230_37);
+Obj v__3520232_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520231_37);
+Obj v__3520233_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
 Obj v__3520234_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520233_37);
-Obj v__3520235_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520234_37);
-Obj v__3520236_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ISCONS"), Nil);
-Obj v__3520237_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520236_37);
-Obj v__3520238_37 = makeCons(co->gc, getBinding(co, packageID, 118).name, v__3520237_37);
-Obj v__3520239_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_ADD"), Nil);
+Obj v__3520235_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520234_37);
+Obj v__3520236_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
+Obj v__3520237_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520236_37);
+Obj v__3520238_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520237_37);
+Obj v__3520239_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
 Obj v__3520240_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520239_37);
-Obj v__3520241_37 = makeCons(co->gc, getBinding(co, packageID, 117).name, v__3520240_37);
-Obj v__3520242_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_SUB"), Nil);
+Obj v__3520241_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520240_37);
+Obj v__3520242_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
 Obj v__3520243_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520242_37);
-Obj v__3520244_37 = makeCons(co->gc, getBinding(co, packageID, 116).name, v__3520243_37);
-Obj v__3520245_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_MUL"), Nil);
+Obj v__3520244_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520243_37);
+Obj v__3520245_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
 Obj v__3520246_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520245_37);
-Obj v__3520247_37 = makeCons(co->gc, getBinding(co, packageID, 115).name, v__3520246_37);
-Obj v__3520248_37 = makeCons(co->gc, makeCString(co->gc, "primDiv"), Nil);
-Obj v__3520249_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520248_37);
-Obj v__3520250_37 = makeCons(co->gc, getBinding(co, packageID, 114).name, v__3520249_37);
-Obj v__3520251_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_EQ"), Nil);
-Obj v__3520252_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520251_37);
-Obj v__3520253_37 = makeCons(co->gc, getBinding(co, packageID, 113).name, v__3520252_37);
-Obj v__3520254_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_GT"), Nil);
-Obj v__3520255_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520254_37);
-Obj v__3520256_37 = makeCons(co->gc, getBinding(co, packageID, 112).name, v__3520255_37);
-Obj v__3520257_37 = makeCons(co->gc, makeCString(co->gc, "PRIM_LT"), Nil);
-Obj v__3520258_37 = makeCons(co->gc, MAKE_NUMBER(2), v__3520257_37);
-Obj v__3520259_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520258_37);
-Obj v__3520260_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
-Obj v__3520261_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520260_37);
-Obj v__3520262_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520261_37);
-Obj v__3520263_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
-Obj v__3520264_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520263_37);
-Obj v__3520265_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520264_37);
-Obj v__3520266_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
-Obj v__3520267_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520266_37);
-Obj v__3520268_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520267_37);
-Obj v__3520269_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
-Obj v__3520270_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520269_37);
-Obj v__3520271_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3520270_37);
-Obj v__3520272_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
-Obj v__3520273_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520272_37);
-Obj v__3520274_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3520273_37);
-Obj v__3520275_37 = makeCons(co->gc, v__3520274_37, Nil);
-Obj v__3520276_37 = makeCons(co->gc, v__3520271_37, v__3520275_37);
-Obj v__3520277_37 = makeCons(co->gc, v__3520268_37, v__3520276_37);
-Obj v__3520278_37 = makeCons(co->gc, v__3520265_37, v__3520277_37);
-Obj v__3520279_37 = makeCons(co->gc, v__3520262_37, v__3520278_37);
-Obj v__3520280_37 = makeCons(co->gc, v__3520259_37, v__3520279_37);
-Obj v__3520281_37 = makeCons(co->gc, v__3520256_37, v__3520280_37);
-Obj v__3520282_37 = makeCons(co->gc, v__3520253_37, v__3520281_37);
-Obj v__3520283_37 = makeCons(co->gc, v__3520250_37, v__3520282_37);
-Obj v__3520284_37 = makeCons(co->gc, v__3520247_37, v__3520283_37);
-Obj v__3520285_37 = makeCons(co->gc, v__3520244_37, v__3520284_37);
-Obj v__3520286_37 = makeCons(co->gc, v__3520241_37, v__3520285_37);
-Obj v__3520287_37 = makeCons(co->gc, v__3520238_37, v__3520286_37);
-Obj v__3520288_37 = makeCons(co->gc, v__3520235_37, v__3520287_37);
-Obj v__3520289_37 = makeCons(co->gc, v__3520232_37, v__3520288_37);
-Obj v__3520290_37 = makeCons(co->gc, v__3520229_37, v__3520289_37);
-Obj v__3520291_37 = makeCons(co->gc, v__3520226_37, v__3520290_37);
-Obj v__3520292_37 = primSet(co, getBinding(co, packageID, 123).name, v__3520291_37);
-Obj v__3520296_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
-Obj v__3520299_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
-Obj v__3520302_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
-Obj v__3520307_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
-Obj v__3520325_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 5, clofun11, 4, 0));
-Obj v__3520536_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 4, clofun23, 3, 0));
-Obj v__3520547_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun25, 2, 0));
-Obj v__3520558_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 4, clofun27, 2, 0));
-Obj v__3520619_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun34, 1, 0));
-Obj v__3520794_37 = primSet(co, getBinding(co, packageID, 75).name, makeNative(co->gc, 2, clofun44, 1, 0));
-Obj v__3520867_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun47, 2, 0));
-Obj v__3520870_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun48, 1, 0));
-Obj v__3521007_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun57, 2, 0));
-Obj v__3521030_37 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun60, 3, 0));
-Obj v__3521107_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun64, 2, 0));
-Obj v__3521138_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun68, 3, 0));
-Obj v__3521144_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun71, 4, 0));
-Obj v__3521149_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun73, 2, 0));
-Obj v__3521158_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun75, 1, 0));
-Obj v__3521209_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun77, 2, 0));
-Obj v__3521217_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun78, 2, 0));
-Obj v__3521224_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun79, 2, 0));
-Obj v__3521229_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 4, clofun80, 2, 0));
-Obj v__3521235_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun81, 3, 0));
-Obj v__3521236_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun82, 2, 0));
-Obj v__3521243_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun84, 5, 0));
-Obj v__3521250_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun86, 5, 0));
-Obj v__3521537_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun99, 5, 0));
-Obj v__3521551_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun101, 5, 0));
-Obj v__3521573_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun103, 5, 0));
-Obj v__3521575_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun104, 2, 0));
-Obj v__3521579_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun105, 2, 0));
-Obj v__3521580_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun106, 2, 0));
-Obj v__3521581_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun107, 1, 0));
-Obj v__3521582_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun108, 1, 0));
-Obj v__3521583_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun109, 1, 0));
-Obj v__3521590_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun110, 1, 0));
-Obj v__3521597_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun111, 2, 0));
+Obj v__3520247_37 = makeCons(co->gc, getBinding(co, packageID, 111).name, v__3520246_37);
+Obj v__3520248_37 = makeCons(co->gc, makeCString(co->gc, "primGenSym"), Nil);
+Obj v__3520249_37 = makeCons(co->gc, MAKE_NUMBER(0), v__3520248_37);
+Obj v__3520250_37 = makeCons(co->gc, getBinding(co, packageID, 110).name, v__3520249_37);
+Obj v__3520251_37 = makeCons(co->gc, makeCString(co->gc, "primIsSymbol"), Nil);
+Obj v__3520252_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520251_37);
+Obj v__3520253_37 = makeCons(co->gc, getBinding(co, packageID, 109).name, v__3520252_37);
+Obj v__3520254_37 = makeCons(co->gc, makeCString(co->gc, "primNot"), Nil);
+Obj v__3520255_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520254_37);
+Obj v__3520256_37 = makeCons(co->gc, getBinding(co, packageID, 108).name, v__3520255_37);
+Obj v__3520257_37 = makeCons(co->gc, makeCString(co->gc, "primIsNumber"), Nil);
+Obj v__3520258_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520257_37);
+Obj v__3520259_37 = makeCons(co->gc, getBinding(co, packageID, 107).name, v__3520258_37);
+Obj v__3520260_37 = makeCons(co->gc, makeCString(co->gc, "primIsString"), Nil);
+Obj v__3520261_37 = makeCons(co->gc, MAKE_NUMBER(1), v__3520260_37);
+Obj v__3520262_37 = makeCons(co->gc, getBinding(co, packageID, 106).name, v__3520261_37);
+Obj v__3520263_37 = makeCons(co->gc, v__3520262_37, Nil);
+Obj v__3520264_37 = makeCons(co->gc, v__3520259_37, v__3520263_37);
+Obj v__3520265_37 = makeCons(co->gc, v__3520256_37, v__3520264_37);
+Obj v__3520266_37 = makeCons(co->gc, v__3520253_37, v__3520265_37);
+Obj v__3520267_37 = makeCons(co->gc, v__3520250_37, v__3520266_37);
+Obj v__3520268_37 = makeCons(co->gc, v__3520247_37, v__3520267_37);
+Obj v__3520269_37 = makeCons(co->gc, v__3520244_37, v__3520268_37);
+Obj v__3520270_37 = makeCons(co->gc, v__3520241_37, v__3520269_37);
+Obj v__3520271_37 = makeCons(co->gc, v__3520238_37, v__3520270_37);
+Obj v__3520272_37 = makeCons(co->gc, v__3520235_37, v__3520271_37);
+Obj v__3520273_37 = makeCons(co->gc, v__3520232_37, v__3520272_37);
+Obj v__3520274_37 = makeCons(co->gc, v__3520229_37, v__3520273_37);
+Obj v__3520275_37 = makeCons(co->gc, v__3520226_37, v__3520274_37);
+Obj v__3520276_37 = makeCons(co->gc, v__3520223_37, v__3520275_37);
+Obj v__3520277_37 = makeCons(co->gc, v__3520220_37, v__3520276_37);
+Obj v__3520278_37 = makeCons(co->gc, v__3520217_37, v__3520277_37);
+Obj v__3520279_37 = makeCons(co->gc, v__3520214_37, v__3520278_37);
+Obj v__3520280_37 = primSet(co, getBinding(co, packageID, 123).name, v__3520279_37);
+Obj v__3520284_37 = primSet(co, getBinding(co, packageID, 105).name, makeNative(co->gc, 2, clofun7, 1, 0));
+Obj v__3520287_37 = primSet(co, getBinding(co, packageID, 103).name, makeNative(co->gc, 2, clofun8, 1, 0));
+Obj v__3520290_37 = primSet(co, getBinding(co, packageID, 101).name, makeNative(co->gc, 2, clofun9, 1, 0));
+Obj v__3520295_37 = primSet(co, getBinding(co, packageID, 99).name, makeNative(co->gc, 3, clofun10, 2, 0));
+Obj v__3520313_37 = primSet(co, getBinding(co, packageID, 98).name, makeNative(co->gc, 5, clofun11, 4, 0));
+Obj v__3520524_37 = primSet(co, getBinding(co, packageID, 93).name, makeNative(co->gc, 4, clofun23, 3, 0));
+Obj v__3520535_37 = primSet(co, getBinding(co, packageID, 81).name, makeNative(co->gc, 4, clofun25, 2, 0));
+Obj v__3520546_37 = primSet(co, getBinding(co, packageID, 79).name, makeNative(co->gc, 4, clofun27, 2, 0));
+Obj v__3520607_37 = primSet(co, getBinding(co, packageID, 78).name, makeNative(co->gc, 2, clofun34, 1, 0));
+Obj v__3520782_37 = primSet(co, getBinding(co, packageID, 75).name, makeNative(co->gc, 2, clofun44, 1, 0));
+Obj v__3520855_37 = primSet(co, getBinding(co, packageID, 70).name, makeNative(co->gc, 4, clofun47, 2, 0));
+Obj v__3520858_37 = primSet(co, getBinding(co, packageID, 69).name, makeNative(co->gc, 2, clofun48, 1, 0));
+Obj v__3520995_37 = primSet(co, getBinding(co, packageID, 68).name, makeNative(co->gc, 3, clofun57, 2, 0));
+Obj v__3521018_37 = primSet(co, getBinding(co, packageID, 67).name, makeNative(co->gc, 4, clofun60, 3, 0));
+Obj v__3521095_37 = primSet(co, getBinding(co, packageID, 63).name, makeNative(co->gc, 3, clofun64, 2, 0));
+Obj v__3521126_37 = primSet(co, getBinding(co, packageID, 61).name, makeNative(co->gc, 4, clofun68, 3, 0));
+Obj v__3521132_37 = primSet(co, getBinding(co, packageID, 60).name, makeNative(co->gc, 5, clofun71, 4, 0));
+Obj v__3521137_37 = primSet(co, getBinding(co, packageID, 58).name, makeNative(co->gc, 3, clofun73, 2, 0));
+Obj v__3521146_37 = primSet(co, getBinding(co, packageID, 57).name, makeNative(co->gc, 2, clofun75, 1, 0));
+Obj v__3521197_37 = primSet(co, getBinding(co, packageID, 56).name, makeNative(co->gc, 6, clofun77, 2, 0));
+Obj v__3521205_37 = primSet(co, getBinding(co, packageID, 54).name, makeNative(co->gc, 4, clofun78, 2, 0));
+Obj v__3521212_37 = primSet(co, getBinding(co, packageID, 66).name, makeNative(co->gc, 3, clofun79, 2, 0));
+Obj v__3521217_37 = primSet(co, getBinding(co, packageID, 91).name, makeNative(co->gc, 4, clofun80, 2, 0));
+Obj v__3521223_37 = primSet(co, getBinding(co, packageID, 51).name, makeNative(co->gc, 4, clofun81, 3, 0));
+Obj v__3521224_37 = primSet(co, getBinding(co, packageID, 50).name, makeNative(co->gc, 3, clofun82, 2, 0));
+Obj v__3521231_37 = primSet(co, getBinding(co, packageID, 49).name, makeNative(co->gc, 6, clofun84, 5, 0));
+Obj v__3521238_37 = primSet(co, getBinding(co, packageID, 45).name, makeNative(co->gc, 6, clofun86, 5, 0));
+Obj v__3521525_37 = primSet(co, getBinding(co, packageID, 46).name, makeNative(co->gc, 6, clofun99, 5, 0));
+Obj v__3521539_37 = primSet(co, getBinding(co, packageID, 43).name, makeNative(co->gc, 6, clofun101, 5, 0));
+Obj v__3521561_37 = primSet(co, getBinding(co, packageID, 40).name, makeNative(co->gc, 8, clofun103, 5, 0));
+Obj v__3521563_37 = primSet(co, getBinding(co, packageID, 42).name, makeNative(co->gc, 3, clofun104, 2, 0));
+Obj v__3521567_37 = primSet(co, getBinding(co, packageID, 39).name, makeNative(co->gc, 3, clofun105, 2, 0));
+Obj v__3521568_37 = primSet(co, getBinding(co, packageID, 38).name, makeNative(co->gc, 3, clofun106, 2, 0));
+Obj v__3521569_37 = primSet(co, getBinding(co, packageID, 37).name, makeNative(co->gc, 2, clofun107, 1, 0));
+Obj v__3521570_37 = primSet(co, getBinding(co, packageID, 36).name, makeNative(co->gc, 2, clofun108, 1, 0));
+Obj v__3521571_37 = primSet(co, getBinding(co, packageID, 35).name, makeNative(co->gc, 2, clofun109, 1, 0));
+Obj v__3521578_37 = primSet(co, getBinding(co, packageID, 34).name, makeNative(co->gc, 3, clofun110, 1, 0));
+Obj v__3521585_37 = primSet(co, getBinding(co, packageID, 32).name, makeNative(co->gc, 3, clofun111, 2, 0));
 saveCont(co, clofun147, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 31)), getBinding(co, packageID, 30).name, makeNative(co->gc, 2, clofun112, 1, 0));
 return;
 }
 case 3:
 {
-Obj v__3520182_37= co->res;
+Obj v__3520170_37= co->res;
 saveCont(co, clofun147, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/hash-h"));
 return;
 }
 case 4:
 {
-Obj v__3520181_37= co->res;
+Obj v__3520169_37= co->res;
 saveCont(co, clofun147, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), makeCString(co->gc, "cora/lib/io"));
 return;
@@ -461,96 +461,96 @@ static void clofun146(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519904_37 = R[1];
-Obj v__3519905_37 = R[2];
-Obj v__3521832_37 = primGenSym(co);
-Obj v__3520178_37 = v__3521832_37;
-Obj v__3521833_37 = primSet(co, v__3520178_37, Nil);
-R[1] = v__3519904_37;
-R[2] = v__3519905_37;
-R[3] = v__3520178_37;
+Obj v__3519892_37 = R[1];
+Obj v__3519893_37 = R[2];
+Obj v__3521820_37 = primGenSym(co);
+Obj v__3520166_37 = v__3521820_37;
+Obj v__3521821_37 = primSet(co, v__3520166_37, Nil);
+R[1] = v__3519892_37;
+R[2] = v__3519893_37;
+R[3] = v__3520166_37;
 saveCont(co, clofun146, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3520178_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 28)), v__3520166_37);
 return;
 }
 case 1:
 {
-Obj v__3521840_37= co->res;
-Obj v__3520180_37 = R[1];
+Obj v__3521828_37= co->res;
+Obj v__3520168_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3520180_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 0)), v__3520168_37);
 return;
 }
 case 2:
 {
-Obj v__3521839_37= co->res;
-Obj v__3520179_37 = R[1];
-Obj v__3520180_37 = R[2];
-R[1] = v__3520180_37;
+Obj v__3521827_37= co->res;
+Obj v__3520167_37 = R[1];
+Obj v__3520168_37 = R[2];
+R[1] = v__3520168_37;
 saveCont(co, clofun146, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3520180_37, v__3520179_37, v__3521839_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 23)), v__3520168_37, v__3520167_37, v__3521827_37);
 return;
 }
 case 3:
 {
-Obj v__3521838_37= co->res;
-Obj v__3520178_37 = R[1];
-Obj v__3520179_37 = R[2];
-Obj v__3520180_37 = v__3521838_37;
-R[1] = v__3520179_37;
-R[2] = v__3520180_37;
+Obj v__3521826_37= co->res;
+Obj v__3520166_37 = R[1];
+Obj v__3520167_37 = R[2];
+Obj v__3520168_37 = v__3521826_37;
+R[1] = v__3520167_37;
+R[2] = v__3520168_37;
 saveCont(co, clofun146, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520178_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520166_37);
 return;
 }
 case 4:
 {
-Obj v__3521837_37= co->res;
-Obj v__3519905_37 = R[1];
-Obj v__3520178_37 = R[2];
-Obj v__3520179_37 = v__3521837_37;
-R[1] = v__3520178_37;
-R[2] = v__3520179_37;
+Obj v__3521825_37= co->res;
+Obj v__3519893_37 = R[1];
+Obj v__3520166_37 = R[2];
+Obj v__3520167_37 = v__3521825_37;
+R[1] = v__3520166_37;
+R[2] = v__3520167_37;
 saveCont(co, clofun146, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519905_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 1)), v__3519893_37);
 return;
 }
 case 5:
 {
-Obj v__3521836_37= co->res;
-Obj v__3521834_37 = R[1];
-Obj v__3519905_37 = R[2];
-Obj v__3520178_37 = R[3];
-R[1] = v__3519905_37;
-R[2] = v__3520178_37;
+Obj v__3521824_37= co->res;
+Obj v__3521822_37 = R[1];
+Obj v__3519893_37 = R[2];
+Obj v__3520166_37 = R[3];
+R[1] = v__3519893_37;
+R[2] = v__3520166_37;
 saveCont(co, clofun146, 4, R);
-coraCall1(co, v__3521834_37, v__3521836_37);
+coraCall1(co, v__3521822_37, v__3521824_37);
 return;
 }
 case 6:
 {
-Obj v__3521835_37= co->res;
-Obj v__3521834_37 = R[1];
-Obj v__3519905_37 = R[2];
-Obj v__3520178_37 = R[3];
-R[1] = v__3521834_37;
-R[2] = v__3519905_37;
-R[3] = v__3520178_37;
+Obj v__3521823_37= co->res;
+Obj v__3521822_37 = R[1];
+Obj v__3519893_37 = R[2];
+Obj v__3520166_37 = R[3];
+R[1] = v__3521822_37;
+R[2] = v__3519893_37;
+R[3] = v__3520166_37;
 saveCont(co, clofun146, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3521835_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 2)), v__3521823_37);
 return;
 }
 case 7:
 {
-Obj v__3521834_37= co->res;
-Obj v__3519904_37 = R[1];
-Obj v__3519905_37 = R[2];
-Obj v__3520178_37 = R[3];
-R[1] = v__3521834_37;
-R[2] = v__3519905_37;
-R[3] = v__3520178_37;
+Obj v__3521822_37= co->res;
+Obj v__3519892_37 = R[1];
+Obj v__3519893_37 = R[2];
+Obj v__3520166_37 = R[3];
+R[1] = v__3521822_37;
+R[2] = v__3519893_37;
+R[3] = v__3520166_37;
 saveCont(co, clofun146, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519904_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 5)), v__3519892_37);
 return;
 }
 }
@@ -560,97 +560,97 @@ static void clofun145(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519902_37 = R[1];
+Obj v__3519890_37 = R[1];
 saveCont(co, clofun145, 8, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v__3519902_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 4)), v__3519890_37);
 return;
 }
 case 1:
 {
-Obj v__3521826_37= co->res;
-Obj v__3520174_37 = R[1];
+Obj v__3521814_37= co->res;
+Obj v__3520162_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520162_37);
 return;
 }
 case 2:
 {
-Obj v__3521825_37= co->res;
-Obj v__3520174_37 = R[1];
-R[1] = v__3520174_37;
+Obj v__3521813_37= co->res;
+Obj v__3520162_37 = R[1];
+R[1] = v__3520162_37;
 saveCont(co, clofun145, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520162_37);
 return;
 }
 case 3:
 {
-Obj v__3521828_37= co->res;
-Obj v__3520174_37 = R[1];
+Obj v__3521816_37= co->res;
+Obj v__3520162_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520162_37);
 return;
 }
 case 4:
 {
-Obj v__3521827_37= co->res;
-Obj v__3520174_37 = R[1];
-R[1] = v__3520174_37;
+Obj v__3521815_37= co->res;
+Obj v__3520162_37 = R[1];
+R[1] = v__3520162_37;
 saveCont(co, clofun145, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520162_37);
 return;
 }
 case 5:
 {
-Obj v__3521830_37= co->res;
-Obj v__3520174_37 = R[1];
+Obj v__3521818_37= co->res;
+Obj v__3520162_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 6)), v__3520162_37);
 return;
 }
 case 6:
 {
-Obj v__3521829_37= co->res;
-Obj v__3520174_37 = R[1];
-R[1] = v__3520174_37;
+Obj v__3521817_37= co->res;
+Obj v__3520162_37 = R[1];
+R[1] = v__3520162_37;
 saveCont(co, clofun145, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520162_37);
 return;
 }
 case 7:
 {
-Obj v__3521822_37= co->res;
-Obj v__3520177_37 = R[1];
-Obj v__3520174_37 = R[2];
-if (True == v__3521822_37) {
-Obj v__3521823_37 = PRIM_CAR(v__3520174_37);
-Obj v__3521824_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521823_37);
-if (True == v__3521824_37) {
-R[1] = v__3520174_37;
+Obj v__3521810_37= co->res;
+Obj v__3520165_37 = R[1];
+Obj v__3520162_37 = R[2];
+if (True == v__3521810_37) {
+Obj v__3521811_37 = PRIM_CAR(v__3520162_37);
+Obj v__3521812_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521811_37);
+if (True == v__3521812_37) {
+R[1] = v__3520162_37;
 saveCont(co, clofun145, 2, R);
-coraCall1(co, v__3520177_37, True);
+coraCall1(co, v__3520165_37, True);
 return;
 } else {
-R[1] = v__3520174_37;
+R[1] = v__3520162_37;
 saveCont(co, clofun145, 4, R);
-coraCall1(co, v__3520177_37, False);
+coraCall1(co, v__3520165_37, False);
 return;
 }
 } else {
-R[1] = v__3520174_37;
+R[1] = v__3520162_37;
 saveCont(co, clofun145, 6, R);
-coraCall1(co, v__3520177_37, False);
+coraCall1(co, v__3520165_37, False);
 return;
 }
 }
 case 8:
 {
-Obj v__3521819_37= co->res;
-Obj v__3520174_37 = v__3521819_37;
-Obj v__3520177_37 = makeNative(co->gc, 2, clofun144, 1, 1, v__3520174_37);
-R[1] = v__3520177_37;
-R[2] = v__3520174_37;
+Obj v__3521807_37= co->res;
+Obj v__3520162_37 = v__3521807_37;
+Obj v__3520165_37 = makeNative(co->gc, 2, clofun144, 1, 1, v__3520162_37);
+R[1] = v__3520165_37;
+R[2] = v__3520162_37;
 saveCont(co, clofun145, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520174_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3520162_37);
 return;
 }
 }
@@ -660,14 +660,14 @@ static void clofun144(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520176_37 = R[1];
-if (True == v__3520176_37) {
-Obj v__3521820_37 = PRIM_CDR(closureRef(R[0], 0));
-coraReturn(co, v__3521820_37);
+Obj v__3520164_37 = R[1];
+if (True == v__3520164_37) {
+Obj v__3521808_37 = PRIM_CDR(closureRef(R[0], 0));
+coraReturn(co, v__3521808_37);
 return;
 } else {
-Obj v__3521821_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-coraReturn(co, v__3521821_37);
+Obj v__3521809_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+coraReturn(co, v__3521809_37);
 return;
 }
 }
@@ -678,27 +678,27 @@ static void clofun143(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519889_37 = R[1];
-Obj v__3520170_37 = makeNative(co->gc, 1, clofun140, 0, 1, v__3519889_37);
-Obj v__3521812_37 = PRIM_ISCONS(v__3519889_37);
-if (True == v__3521812_37) {
-Obj v__3521813_37 = PRIM_CAR(v__3519889_37);
-Obj v__3521814_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521813_37);
-if (True == v__3521814_37) {
-Obj v__3521815_37 = PRIM_CDR(v__3519889_37);
-Obj v__3520173_37 = v__3521815_37;
-Obj v__3521816_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3520173_37);
+Obj v__3519877_37 = R[1];
+Obj v__3520158_37 = makeNative(co->gc, 1, clofun140, 0, 1, v__3519877_37);
+Obj v__3521800_37 = PRIM_ISCONS(v__3519877_37);
+if (True == v__3521800_37) {
+Obj v__3521801_37 = PRIM_CAR(v__3519877_37);
+Obj v__3521802_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521801_37);
+if (True == v__3521802_37) {
+Obj v__3521803_37 = PRIM_CDR(v__3519877_37);
+Obj v__3520161_37 = v__3521803_37;
+Obj v__3521804_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3520161_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521816_37, makeNative(co->gc, 2, clofun142, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521804_37, makeNative(co->gc, 2, clofun142, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520170_37);
+coraCall0(co, v__3520158_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520170_37);
+coraCall0(co, v__3520158_37);
 return;
 }
 }
@@ -709,9 +709,9 @@ static void clofun142(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519899_37 = R[1];
+Obj v__3519887_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519899_37, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519887_37, Nil, Nil, makeNative(co->gc, 3, clofun141, 2, 0));
 return;
 }
 }
@@ -721,10 +721,10 @@ static void clofun141(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519900_37 = R[1];
-Obj v__3519901_37 = R[2];
+Obj v__3519888_37 = R[1];
+Obj v__3519889_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519900_37, v__3519901_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519888_37, v__3519889_37);
 return;
 }
 }
@@ -734,26 +734,26 @@ static void clofun140(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520171_37 = makeNative(co->gc, 1, clofun137, 0, 1, closureRef(R[0], 0));
-Obj v__3521807_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521807_37) {
-Obj v__3521808_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521809_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521808_37);
-if (True == v__3521809_37) {
-Obj v__3521810_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520172_37 = v__3521810_37;
-Obj v__3521811_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520172_37);
+Obj v__3520159_37 = makeNative(co->gc, 1, clofun137, 0, 1, closureRef(R[0], 0));
+Obj v__3521795_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521795_37) {
+Obj v__3521796_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521797_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521796_37);
+if (True == v__3521797_37) {
+Obj v__3521798_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520160_37 = v__3521798_37;
+Obj v__3521799_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520160_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521811_37, makeNative(co->gc, 2, clofun139, 1, 0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3521799_37, makeNative(co->gc, 2, clofun139, 1, 0));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520171_37);
+coraCall0(co, v__3520159_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520171_37);
+coraCall0(co, v__3520159_37);
 return;
 }
 }
@@ -764,9 +764,9 @@ static void clofun139(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519894_37 = R[1];
+Obj v__3519882_37 = R[1];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519894_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3519882_37, Nil, Nil, makeNative(co->gc, 3, clofun138, 2, 0));
 return;
 }
 }
@@ -776,10 +776,10 @@ static void clofun138(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519895_37 = R[1];
-Obj v__3519896_37 = R[2];
+Obj v__3519883_37 = R[1];
+Obj v__3519884_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519895_37, v__3519896_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519883_37, v__3519884_37);
 return;
 }
 }
@@ -789,9 +789,9 @@ static void clofun137(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521804_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521792_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3521804_37, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3521792_37, Nil, Nil, makeNative(co->gc, 3, clofun136, 2, 0));
 return;
 }
 }
@@ -801,17 +801,17 @@ static void clofun136(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519890_37 = R[1];
-Obj v__3519891_37 = R[2];
+Obj v__3519878_37 = R[1];
+Obj v__3519879_37 = R[2];
 saveCont(co, clofun136, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519890_37, v__3519891_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 8)), v__3519878_37, v__3519879_37);
 return;
 }
 case 1:
 {
-Obj v__3521805_37= co->res;
-Obj v__3521806_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521805_37);
-coraReturn(co, v__3521806_37);
+Obj v__3521793_37= co->res;
+Obj v__3521794_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521793_37);
+coraReturn(co, v__3521794_37);
 return;
 }
 }
@@ -821,14 +821,14 @@ static void clofun135(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519887_37 = R[1];
-Obj v__3519888_37 = R[2];
+Obj v__3519875_37 = R[1];
+Obj v__3519876_37 = R[2];
 if (True == globalRef(co, getBinding(co, packageID, 7))) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3519887_37, v__3519888_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3519875_37, v__3519876_37);
 return;
 } else {
-coraReturn(co, v__3519888_37);
+coraReturn(co, v__3519876_37);
 return;
 }
 }
@@ -839,50 +839,50 @@ static void clofun134(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519874_37 = R[1];
-Obj v__3519875_37 = R[2];
-Obj v__3520159_37 = makeNative(co->gc, 2, clofun133, 0, 2, v__3519874_37, v__3519875_37);
-Obj v__3521790_37 = PRIM_ISCONS(v__3519874_37);
-if (True == v__3521790_37) {
-Obj v__3521791_37 = PRIM_CAR(v__3519874_37);
-Obj v__3521792_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521791_37);
-if (True == v__3521792_37) {
-Obj v__3521793_37 = PRIM_CDR(v__3519874_37);
-Obj v__3521794_37 = PRIM_ISCONS(v__3521793_37);
-if (True == v__3521794_37) {
-Obj v__3521795_37 = PRIM_CDR(v__3519874_37);
-Obj v__3521796_37 = PRIM_CAR(v__3521795_37);
-Obj v__3520168_37 = v__3521796_37;
-Obj v__3521797_37 = PRIM_CDR(v__3519874_37);
-Obj v__3521798_37 = PRIM_CDR(v__3521797_37);
-Obj v__3520169_37 = v__3521798_37;
-R[1] = v__3520168_37;
+Obj v__3519862_37 = R[1];
+Obj v__3519863_37 = R[2];
+Obj v__3520147_37 = makeNative(co->gc, 2, clofun133, 0, 2, v__3519862_37, v__3519863_37);
+Obj v__3521778_37 = PRIM_ISCONS(v__3519862_37);
+if (True == v__3521778_37) {
+Obj v__3521779_37 = PRIM_CAR(v__3519862_37);
+Obj v__3521780_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521779_37);
+if (True == v__3521780_37) {
+Obj v__3521781_37 = PRIM_CDR(v__3519862_37);
+Obj v__3521782_37 = PRIM_ISCONS(v__3521781_37);
+if (True == v__3521782_37) {
+Obj v__3521783_37 = PRIM_CDR(v__3519862_37);
+Obj v__3521784_37 = PRIM_CAR(v__3521783_37);
+Obj v__3520156_37 = v__3521784_37;
+Obj v__3521785_37 = PRIM_CDR(v__3519862_37);
+Obj v__3521786_37 = PRIM_CDR(v__3521785_37);
+Obj v__3520157_37 = v__3521786_37;
+R[1] = v__3520156_37;
 saveCont(co, clofun134, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520169_37, v__3519875_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520157_37, v__3519863_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520159_37);
+coraCall0(co, v__3520147_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520159_37);
+coraCall0(co, v__3520147_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520159_37);
+coraCall0(co, v__3520147_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521799_37= co->res;
-Obj v__3520168_37 = R[1];
-Obj v__3521800_37 = makeCons(co->gc, v__3520168_37, v__3521799_37);
-Obj v__3521801_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3521800_37);
-coraReturn(co, v__3521801_37);
+Obj v__3521787_37= co->res;
+Obj v__3520156_37 = R[1];
+Obj v__3521788_37 = makeCons(co->gc, v__3520156_37, v__3521787_37);
+Obj v__3521789_37 = makeCons(co->gc, getBinding(co, packageID, 18).name, v__3521788_37);
+coraReturn(co, v__3521789_37);
 return;
 }
 }
@@ -892,69 +892,69 @@ static void clofun133(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520160_37 = makeNative(co->gc, 2, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521769_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521769_37) {
-Obj v__3521770_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521771_37 = PRIM_ISCONS(v__3521770_37);
-if (True == v__3521771_37) {
-Obj v__3521772_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521773_37 = PRIM_CAR(v__3521772_37);
-Obj v__3521774_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521773_37);
-if (True == v__3521774_37) {
-Obj v__3521775_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521776_37 = PRIM_CDR(v__3521775_37);
-Obj v__3521777_37 = PRIM_ISCONS(v__3521776_37);
-if (True == v__3521777_37) {
-Obj v__3521778_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521779_37 = PRIM_CDR(v__3521778_37);
-Obj v__3521780_37 = PRIM_CAR(v__3521779_37);
-Obj v__3520166_37 = v__3521780_37;
-Obj v__3521781_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521782_37 = PRIM_CDR(v__3521781_37);
-Obj v__3521783_37 = PRIM_CDR(v__3521782_37);
-Obj v__3521784_37 = PRIM_EQ(Nil, v__3521783_37);
-if (True == v__3521784_37) {
-Obj v__3521785_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520167_37 = v__3521785_37;
-Obj v__3521786_37 = makeCons(co->gc, v__3520166_37, Nil);
-Obj v__3521787_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3521786_37);
-R[1] = v__3521787_37;
+Obj v__3520148_37 = makeNative(co->gc, 2, clofun132, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521757_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521757_37) {
+Obj v__3521758_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521759_37 = PRIM_ISCONS(v__3521758_37);
+if (True == v__3521759_37) {
+Obj v__3521760_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521761_37 = PRIM_CAR(v__3521760_37);
+Obj v__3521762_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521761_37);
+if (True == v__3521762_37) {
+Obj v__3521763_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521764_37 = PRIM_CDR(v__3521763_37);
+Obj v__3521765_37 = PRIM_ISCONS(v__3521764_37);
+if (True == v__3521765_37) {
+Obj v__3521766_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521767_37 = PRIM_CDR(v__3521766_37);
+Obj v__3521768_37 = PRIM_CAR(v__3521767_37);
+Obj v__3520154_37 = v__3521768_37;
+Obj v__3521769_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521770_37 = PRIM_CDR(v__3521769_37);
+Obj v__3521771_37 = PRIM_CDR(v__3521770_37);
+Obj v__3521772_37 = PRIM_EQ(Nil, v__3521771_37);
+if (True == v__3521772_37) {
+Obj v__3521773_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520155_37 = v__3521773_37;
+Obj v__3521774_37 = makeCons(co->gc, v__3520154_37, Nil);
+Obj v__3521775_37 = makeCons(co->gc, getBinding(co, packageID, 21).name, v__3521774_37);
+R[1] = v__3521775_37;
 saveCont(co, clofun133, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520167_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520155_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520160_37);
+coraCall0(co, v__3520148_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520160_37);
+coraCall0(co, v__3520148_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520160_37);
+coraCall0(co, v__3520148_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520160_37);
+coraCall0(co, v__3520148_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520160_37);
+coraCall0(co, v__3520148_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521788_37= co->res;
-Obj v__3521787_37 = R[1];
-Obj v__3521789_37 = makeCons(co->gc, v__3521787_37, v__3521788_37);
-coraReturn(co, v__3521789_37);
+Obj v__3521776_37= co->res;
+Obj v__3521775_37 = R[1];
+Obj v__3521777_37 = makeCons(co->gc, v__3521775_37, v__3521776_37);
+coraReturn(co, v__3521777_37);
 return;
 }
 }
@@ -964,48 +964,48 @@ static void clofun132(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520161_37 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521757_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521757_37) {
-Obj v__3521758_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521759_37 = PRIM_ISCONS(v__3521758_37);
-if (True == v__3521759_37) {
-Obj v__3521760_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521761_37 = PRIM_CAR(v__3521760_37);
-Obj v__3521762_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521761_37);
-if (True == v__3521762_37) {
-Obj v__3521763_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521764_37 = PRIM_CDR(v__3521763_37);
-Obj v__3520164_37 = v__3521764_37;
-Obj v__3521765_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520165_37 = v__3521765_37;
-Obj v__3521766_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520164_37);
-R[1] = v__3521766_37;
+Obj v__3520149_37 = makeNative(co->gc, 1, clofun131, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521745_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521745_37) {
+Obj v__3521746_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521747_37 = PRIM_ISCONS(v__3521746_37);
+if (True == v__3521747_37) {
+Obj v__3521748_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521749_37 = PRIM_CAR(v__3521748_37);
+Obj v__3521750_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521749_37);
+if (True == v__3521750_37) {
+Obj v__3521751_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521752_37 = PRIM_CDR(v__3521751_37);
+Obj v__3520152_37 = v__3521752_37;
+Obj v__3521753_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520153_37 = v__3521753_37;
+Obj v__3521754_37 = makeCons(co->gc, getBinding(co, packageID, 20).name, v__3520152_37);
+R[1] = v__3521754_37;
 saveCont(co, clofun132, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520165_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520153_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520161_37);
+coraCall0(co, v__3520149_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520161_37);
+coraCall0(co, v__3520149_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520161_37);
+coraCall0(co, v__3520149_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521767_37= co->res;
-Obj v__3521766_37 = R[1];
-Obj v__3521768_37 = makeCons(co->gc, v__3521766_37, v__3521767_37);
-coraReturn(co, v__3521768_37);
+Obj v__3521755_37= co->res;
+Obj v__3521754_37 = R[1];
+Obj v__3521756_37 = makeCons(co->gc, v__3521754_37, v__3521755_37);
+coraReturn(co, v__3521756_37);
 return;
 }
 }
@@ -1015,33 +1015,33 @@ static void clofun131(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520162_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3521751_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521751_37) {
-Obj v__3521752_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521753_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521752_37);
-if (True == v__3521753_37) {
-Obj v__3521754_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520163_37 = v__3521754_37;
+Obj v__3520150_37 = makeNative(co->gc, 1, clofun130, 0, 2, closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3521739_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521739_37) {
+Obj v__3521740_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521741_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521740_37);
+if (True == v__3521741_37) {
+Obj v__3521742_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520151_37 = v__3521742_37;
 saveCont(co, clofun131, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520163_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 9)), v__3520151_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520162_37);
+coraCall0(co, v__3520150_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520162_37);
+coraCall0(co, v__3520150_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521755_37= co->res;
-Obj v__3521756_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521755_37);
-coraReturn(co, v__3521756_37);
+Obj v__3521743_37= co->res;
+Obj v__3521744_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3521743_37);
+coraReturn(co, v__3521744_37);
 return;
 }
 }
@@ -1062,73 +1062,73 @@ static void clofun129(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519854_37 = R[1];
-Obj v__3519855_37 = R[2];
-Obj v__3519856_37 = R[3];
-Obj v__3519857_37 = R[4];
-Obj v__3521712_37 = PRIM_EQ(Nil, v__3519854_37);
-if (True == v__3521712_37) {
-R[1] = v__3519856_37;
-R[2] = v__3519857_37;
+Obj v__3519842_37 = R[1];
+Obj v__3519843_37 = R[2];
+Obj v__3519844_37 = R[3];
+Obj v__3519845_37 = R[4];
+Obj v__3521700_37 = PRIM_EQ(Nil, v__3519842_37);
+if (True == v__3521700_37) {
+R[1] = v__3519844_37;
+R[2] = v__3519845_37;
 saveCont(co, clofun129, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519855_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519843_37);
 return;
 } else {
-Obj v__3520151_37 = makeNative(co->gc, 1, clofun128, 0, 4, v__3519854_37, v__3519855_37, v__3519856_37, v__3519857_37);
-Obj v__3521739_37 = PRIM_ISCONS(v__3519854_37);
-if (True == v__3521739_37) {
-Obj v__3521740_37 = PRIM_CAR(v__3519854_37);
-Obj v__3521741_37 = PRIM_ISCONS(v__3521740_37);
-if (True == v__3521741_37) {
-Obj v__3521742_37 = PRIM_CAR(v__3519854_37);
-Obj v__3521743_37 = PRIM_CAR(v__3521742_37);
-Obj v__3521744_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3521743_37);
-if (True == v__3521744_37) {
-Obj v__3521745_37 = PRIM_CAR(v__3519854_37);
-Obj v__3521746_37 = PRIM_CDR(v__3521745_37);
-Obj v__3520157_37 = v__3521746_37;
-Obj v__3521747_37 = PRIM_CDR(v__3519854_37);
-Obj v__3520158_37 = v__3521747_37;
-Obj v__3521748_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520157_37);
-Obj v__3521749_37 = makeCons(co->gc, v__3521748_37, v__3519855_37);
+Obj v__3520139_37 = makeNative(co->gc, 1, clofun128, 0, 4, v__3519842_37, v__3519843_37, v__3519844_37, v__3519845_37);
+Obj v__3521727_37 = PRIM_ISCONS(v__3519842_37);
+if (True == v__3521727_37) {
+Obj v__3521728_37 = PRIM_CAR(v__3519842_37);
+Obj v__3521729_37 = PRIM_ISCONS(v__3521728_37);
+if (True == v__3521729_37) {
+Obj v__3521730_37 = PRIM_CAR(v__3519842_37);
+Obj v__3521731_37 = PRIM_CAR(v__3521730_37);
+Obj v__3521732_37 = PRIM_EQ(getBinding(co, packageID, 10).name, v__3521731_37);
+if (True == v__3521732_37) {
+Obj v__3521733_37 = PRIM_CAR(v__3519842_37);
+Obj v__3521734_37 = PRIM_CDR(v__3521733_37);
+Obj v__3520145_37 = v__3521734_37;
+Obj v__3521735_37 = PRIM_CDR(v__3519842_37);
+Obj v__3520146_37 = v__3521735_37;
+Obj v__3521736_37 = makeCons(co->gc, getBinding(co, packageID, 19).name, v__3520145_37);
+Obj v__3521737_37 = makeCons(co->gc, v__3521736_37, v__3519843_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520158_37, v__3521749_37, v__3519856_37, v__3519857_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520146_37, v__3521737_37, v__3519844_37, v__3519845_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520151_37);
+coraCall0(co, v__3520139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520151_37);
+coraCall0(co, v__3520139_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520151_37);
+coraCall0(co, v__3520139_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521714_37= co->res;
-Obj v__3519857_37 = R[1];
-Obj v__3521713_37 = R[2];
+Obj v__3521702_37= co->res;
+Obj v__3519845_37 = R[1];
+Obj v__3521701_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3519857_37, v__3521713_37, v__3521714_37);
+coraCall2(co, v__3519845_37, v__3521701_37, v__3521702_37);
 return;
 }
 case 2:
 {
-Obj v__3521713_37= co->res;
-Obj v__3519856_37 = R[1];
-Obj v__3519857_37 = R[2];
-R[1] = v__3519857_37;
-R[2] = v__3521713_37;
+Obj v__3521701_37= co->res;
+Obj v__3519844_37 = R[1];
+Obj v__3519845_37 = R[2];
+R[1] = v__3519845_37;
+R[2] = v__3521701_37;
 saveCont(co, clofun129, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519856_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519844_37);
 return;
 }
 }
@@ -1138,39 +1138,39 @@ static void clofun128(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520152_37 = makeNative(co->gc, 1, clofun127, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
-Obj v__3521728_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521728_37) {
-Obj v__3521729_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521730_37 = PRIM_ISCONS(v__3521729_37);
-if (True == v__3521730_37) {
-Obj v__3521731_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521732_37 = PRIM_CAR(v__3521731_37);
-Obj v__3521733_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3521732_37);
-if (True == v__3521733_37) {
-Obj v__3521734_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521735_37 = PRIM_CDR(v__3521734_37);
-Obj v__3520155_37 = v__3521735_37;
-Obj v__3521736_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520156_37 = v__3521736_37;
-Obj v__3521737_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3520155_37);
-Obj v__3521738_37 = makeCons(co->gc, v__3521737_37, closureRef(R[0], 1));
+Obj v__3520140_37 = makeNative(co->gc, 1, clofun127, 0, 4, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3));
+Obj v__3521716_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521716_37) {
+Obj v__3521717_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521718_37 = PRIM_ISCONS(v__3521717_37);
+if (True == v__3521718_37) {
+Obj v__3521719_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521720_37 = PRIM_CAR(v__3521719_37);
+Obj v__3521721_37 = PRIM_EQ(getBinding(co, packageID, 12).name, v__3521720_37);
+if (True == v__3521721_37) {
+Obj v__3521722_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521723_37 = PRIM_CDR(v__3521722_37);
+Obj v__3520143_37 = v__3521723_37;
+Obj v__3521724_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520144_37 = v__3521724_37;
+Obj v__3521725_37 = makeCons(co->gc, getBinding(co, packageID, 11).name, v__3520143_37);
+Obj v__3521726_37 = makeCons(co->gc, v__3521725_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520156_37, v__3521738_37, closureRef(R[0], 2), closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520144_37, v__3521726_37, closureRef(R[0], 2), closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520152_37);
+coraCall0(co, v__3520140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520152_37);
+coraCall0(co, v__3520140_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520152_37);
+coraCall0(co, v__3520140_37);
 return;
 }
 }
@@ -1181,24 +1181,24 @@ static void clofun127(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521715_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521715_37) {
-Obj v__3521716_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520153_37 = v__3521716_37;
-Obj v__3521717_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520154_37 = v__3521717_37;
-Obj v__3521718_37 = makeCons(co->gc, v__3520153_37, Nil);
-Obj v__3521719_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3521718_37);
-Obj v__3521720_37 = makeCons(co->gc, v__3521719_37, Nil);
-Obj v__3521721_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521720_37);
-Obj v__3521722_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
-Obj v__3521723_37 = makeCons(co->gc, v__3521722_37, Nil);
-Obj v__3521724_37 = makeCons(co->gc, v__3521721_37, v__3521723_37);
-Obj v__3521725_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521724_37);
-Obj v__3521726_37 = makeCons(co->gc, v__3521725_37, closureRef(R[0], 1));
-Obj v__3521727_37 = makeCons(co->gc, v__3520153_37, closureRef(R[0], 2));
+Obj v__3521703_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521703_37) {
+Obj v__3521704_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520141_37 = v__3521704_37;
+Obj v__3521705_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520142_37 = v__3521705_37;
+Obj v__3521706_37 = makeCons(co->gc, v__3520141_37, Nil);
+Obj v__3521707_37 = makeCons(co->gc, getBinding(co, packageID, 14).name, v__3521706_37);
+Obj v__3521708_37 = makeCons(co->gc, v__3521707_37, Nil);
+Obj v__3521709_37 = makeCons(co->gc, getBinding(co, packageID, 15).name, v__3521708_37);
+Obj v__3521710_37 = makeCons(co->gc, getBinding(co, packageID, 13).name, Nil);
+Obj v__3521711_37 = makeCons(co->gc, v__3521710_37, Nil);
+Obj v__3521712_37 = makeCons(co->gc, v__3521709_37, v__3521711_37);
+Obj v__3521713_37 = makeCons(co->gc, getBinding(co, packageID, 16).name, v__3521712_37);
+Obj v__3521714_37 = makeCons(co->gc, v__3521713_37, closureRef(R[0], 1));
+Obj v__3521715_37 = makeCons(co->gc, v__3520141_37, closureRef(R[0], 2));
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520154_37, v__3521726_37, v__3521727_37, closureRef(R[0], 3));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 17)), v__3520142_37, v__3521714_37, v__3521715_37, closureRef(R[0], 3));
 return;
 } else {
 co->ctx.sp = R;
@@ -1213,37 +1213,37 @@ static void clofun126(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519844_37 = R[1];
-Obj v__3520142_37 = makeNative(co->gc, 1, clofun125, 0, 1, v__3519844_37);
-Obj v__3521702_37 = PRIM_ISCONS(v__3519844_37);
-if (True == v__3521702_37) {
-Obj v__3521703_37 = PRIM_CAR(v__3519844_37);
-Obj v__3521704_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521703_37);
-if (True == v__3521704_37) {
-Obj v__3521705_37 = PRIM_CDR(v__3519844_37);
-Obj v__3521706_37 = PRIM_ISCONS(v__3521705_37);
-if (True == v__3521706_37) {
-Obj v__3521707_37 = PRIM_CDR(v__3519844_37);
-Obj v__3521708_37 = PRIM_CAR(v__3521707_37);
-Obj v__3521709_37 = PRIM_CDR(v__3519844_37);
-Obj v__3521710_37 = PRIM_CDR(v__3521709_37);
-Obj v__3520150_37 = v__3521710_37;
+Obj v__3519832_37 = R[1];
+Obj v__3520130_37 = makeNative(co->gc, 1, clofun125, 0, 1, v__3519832_37);
+Obj v__3521690_37 = PRIM_ISCONS(v__3519832_37);
+if (True == v__3521690_37) {
+Obj v__3521691_37 = PRIM_CAR(v__3519832_37);
+Obj v__3521692_37 = PRIM_EQ(getBinding(co, packageID, 18).name, v__3521691_37);
+if (True == v__3521692_37) {
+Obj v__3521693_37 = PRIM_CDR(v__3519832_37);
+Obj v__3521694_37 = PRIM_ISCONS(v__3521693_37);
+if (True == v__3521694_37) {
+Obj v__3521695_37 = PRIM_CDR(v__3519832_37);
+Obj v__3521696_37 = PRIM_CAR(v__3521695_37);
+Obj v__3521697_37 = PRIM_CDR(v__3519832_37);
+Obj v__3521698_37 = PRIM_CDR(v__3521697_37);
+Obj v__3520138_37 = v__3521698_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520150_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520138_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520142_37);
+coraCall0(co, v__3520130_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520142_37);
+coraCall0(co, v__3520130_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520142_37);
+coraCall0(co, v__3520130_37);
 return;
 }
 }
@@ -1254,25 +1254,25 @@ static void clofun125(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520143_37 = makeNative(co->gc, 1, clofun124, 0, 1, closureRef(R[0], 0));
-Obj v__3521698_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521698_37) {
-Obj v__3521699_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521700_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521699_37);
-if (True == v__3521700_37) {
-Obj v__3521701_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520149_37 = v__3521701_37;
+Obj v__3520131_37 = makeNative(co->gc, 1, clofun124, 0, 1, closureRef(R[0], 0));
+Obj v__3521686_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521686_37) {
+Obj v__3521687_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521688_37 = PRIM_EQ(getBinding(co, packageID, 19).name, v__3521687_37);
+if (True == v__3521688_37) {
+Obj v__3521689_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520137_37 = v__3521689_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520149_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520137_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520143_37);
+coraCall0(co, v__3520131_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520143_37);
+coraCall0(co, v__3520131_37);
 return;
 }
 }
@@ -1283,36 +1283,36 @@ static void clofun124(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520144_37 = makeNative(co->gc, 2, clofun123, 0, 1, closureRef(R[0], 0));
-Obj v__3521689_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521689_37) {
-Obj v__3521690_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521691_37 = PRIM_ISCONS(v__3521690_37);
-if (True == v__3521691_37) {
-Obj v__3521692_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521693_37 = PRIM_CAR(v__3521692_37);
-Obj v__3521694_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521693_37);
-if (True == v__3521694_37) {
-Obj v__3521695_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521696_37 = PRIM_CDR(v__3521695_37);
-Obj v__3521697_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520148_37 = v__3521697_37;
+Obj v__3520132_37 = makeNative(co->gc, 2, clofun123, 0, 1, closureRef(R[0], 0));
+Obj v__3521677_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521677_37) {
+Obj v__3521678_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521679_37 = PRIM_ISCONS(v__3521678_37);
+if (True == v__3521679_37) {
+Obj v__3521680_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521681_37 = PRIM_CAR(v__3521680_37);
+Obj v__3521682_37 = PRIM_EQ(getBinding(co, packageID, 20).name, v__3521681_37);
+if (True == v__3521682_37) {
+Obj v__3521683_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521684_37 = PRIM_CDR(v__3521683_37);
+Obj v__3521685_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520136_37 = v__3521685_37;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520148_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520136_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520144_37);
+coraCall0(co, v__3520132_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520144_37);
+coraCall0(co, v__3520132_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520144_37);
+coraCall0(co, v__3520132_37);
 return;
 }
 }
@@ -1323,67 +1323,67 @@ static void clofun123(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520145_37 = makeNative(co->gc, 1, clofun122, 0, 0);
-Obj v__3521671_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521671_37) {
-Obj v__3521672_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521673_37 = PRIM_ISCONS(v__3521672_37);
-if (True == v__3521673_37) {
-Obj v__3521674_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521675_37 = PRIM_CAR(v__3521674_37);
-Obj v__3521676_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521675_37);
-if (True == v__3521676_37) {
-Obj v__3521677_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521678_37 = PRIM_CDR(v__3521677_37);
-Obj v__3521679_37 = PRIM_ISCONS(v__3521678_37);
-if (True == v__3521679_37) {
-Obj v__3521680_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521681_37 = PRIM_CDR(v__3521680_37);
-Obj v__3521682_37 = PRIM_CAR(v__3521681_37);
-Obj v__3520146_37 = v__3521682_37;
-Obj v__3521683_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521684_37 = PRIM_CDR(v__3521683_37);
-Obj v__3521685_37 = PRIM_CDR(v__3521684_37);
-Obj v__3521686_37 = PRIM_EQ(Nil, v__3521685_37);
-if (True == v__3521686_37) {
-Obj v__3521687_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520147_37 = v__3521687_37;
-R[1] = v__3520147_37;
+Obj v__3520133_37 = makeNative(co->gc, 1, clofun122, 0, 0);
+Obj v__3521659_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521659_37) {
+Obj v__3521660_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521661_37 = PRIM_ISCONS(v__3521660_37);
+if (True == v__3521661_37) {
+Obj v__3521662_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521663_37 = PRIM_CAR(v__3521662_37);
+Obj v__3521664_37 = PRIM_EQ(getBinding(co, packageID, 21).name, v__3521663_37);
+if (True == v__3521664_37) {
+Obj v__3521665_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521666_37 = PRIM_CDR(v__3521665_37);
+Obj v__3521667_37 = PRIM_ISCONS(v__3521666_37);
+if (True == v__3521667_37) {
+Obj v__3521668_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521669_37 = PRIM_CDR(v__3521668_37);
+Obj v__3521670_37 = PRIM_CAR(v__3521669_37);
+Obj v__3520134_37 = v__3521670_37;
+Obj v__3521671_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521672_37 = PRIM_CDR(v__3521671_37);
+Obj v__3521673_37 = PRIM_CDR(v__3521672_37);
+Obj v__3521674_37 = PRIM_EQ(Nil, v__3521673_37);
+if (True == v__3521674_37) {
+Obj v__3521675_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520135_37 = v__3521675_37;
+R[1] = v__3520135_37;
 saveCont(co, clofun123, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3520146_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 131)), v__3520134_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520145_37);
+coraCall0(co, v__3520133_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520145_37);
+coraCall0(co, v__3520133_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520145_37);
+coraCall0(co, v__3520133_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520145_37);
+coraCall0(co, v__3520133_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520145_37);
+coraCall0(co, v__3520133_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521688_37= co->res;
-Obj v__3520147_37 = R[1];
+Obj v__3521676_37= co->res;
+Obj v__3520135_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520147_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 22)), v__3520135_37);
 return;
 }
 }
@@ -1403,118 +1403,118 @@ static void clofun121(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519839_37 = R[1];
-Obj v__3519840_37 = R[2];
-Obj v__3519841_37 = R[3];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3519827_37 = R[1];
+Obj v__3519828_37 = R[2];
+Obj v__3519829_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "#include \"types.h\"\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519827_37, makeCString(co->gc, "#include \"types.h\"\n"));
 return;
 }
 case 1:
 {
-Obj v__3521669_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
+Obj v__3521657_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 2, v__3519839_37, v__3519841_37), v__3519840_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun120, 1, 2, v__3519827_37, v__3519829_37), v__3519828_37);
 return;
 }
 case 2:
 {
-Obj v__3521668_37= co->res;
-Obj v__3521666_37 = R[1];
-Obj v__3519839_37 = R[2];
-Obj v__3519841_37 = R[3];
-Obj v__3519840_37 = R[4];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3521656_37= co->res;
+Obj v__3521654_37 = R[1];
+Obj v__3519827_37 = R[2];
+Obj v__3519829_37 = R[3];
+Obj v__3519828_37 = R[4];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 1, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v__3519839_37, v__3519841_37, v__3521666_37, v__3521668_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 25)), v__3519827_37, v__3519829_37, v__3521654_37, v__3521656_37);
 return;
 }
 case 3:
 {
-Obj v__3521666_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
-Obj v__3521667_37 = PRIM_CAR(v__3519840_37);
-R[1] = v__3521666_37;
-R[2] = v__3519839_37;
-R[3] = v__3519841_37;
-R[4] = v__3519840_37;
+Obj v__3521654_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
+Obj v__3521655_37 = PRIM_CAR(v__3519828_37);
+R[1] = v__3521654_37;
+R[2] = v__3519827_37;
+R[3] = v__3519829_37;
+R[4] = v__3519828_37;
 saveCont(co, clofun121, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3521667_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3521655_37);
 return;
 }
 case 4:
 {
-Obj v__3521665_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3521653_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519840_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3519828_37);
 return;
 }
 case 5:
 {
-Obj v__3521664_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3521652_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519827_37, makeCString(co->gc, "\n\n"));
 return;
 }
 case 6:
 {
-Obj v__3521661_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3521649_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 1, v__3519839_37), v__3519840_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), makeNative(co->gc, 2, clofun119, 1, 1, v__3519827_37), v__3519828_37);
 return;
 }
 case 7:
 {
-Obj v__3521660_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3521648_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "static int packageID = -1;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519827_37, makeCString(co->gc, "static int packageID = -1;\n"));
 return;
 }
 case 8:
 {
-Obj v__3521659_37= co->res;
-Obj v__3519839_37 = R[1];
-Obj v__3519841_37 = R[2];
-Obj v__3519840_37 = R[3];
-R[1] = v__3519839_37;
-R[2] = v__3519841_37;
-R[3] = v__3519840_37;
+Obj v__3521647_37= co->res;
+Obj v__3519827_37 = R[1];
+Obj v__3519829_37 = R[2];
+Obj v__3519828_37 = R[3];
+R[1] = v__3519827_37;
+R[2] = v__3519829_37;
+R[3] = v__3519828_37;
 saveCont(co, clofun121, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519839_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519827_37, makeCString(co->gc, "#include \"runtime.h\"\n\n"));
 return;
 }
 }
@@ -1524,9 +1524,9 @@ static void clofun120(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519843_37 = R[1];
+Obj v__3519831_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v__3519843_37, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 26)), closureRef(R[0], 0), v__3519831_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -1536,15 +1536,15 @@ static void clofun119(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519842_37 = R[1];
-Obj v__3521662_37 = PRIM_CAR(v__3519842_37);
+Obj v__3519830_37 = R[1];
+Obj v__3521650_37 = PRIM_CAR(v__3519830_37);
 saveCont(co, clofun119, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3521662_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), closureRef(R[0], 0), v__3521650_37);
 return;
 }
 case 1:
 {
-Obj v__3521663_37= co->res;
+Obj v__3521651_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, ";\n"));
 return;
@@ -1556,203 +1556,203 @@ static void clofun118(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519833_37 = R[1];
-Obj v__3519834_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519836_37 = R[4];
-R[1] = v__3519834_37;
-R[2] = v__3519836_37;
-R[3] = v__3519835_37;
-R[4] = v__3519833_37;
+Obj v__3519821_37 = R[1];
+Obj v__3519822_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519824_37 = R[4];
+R[1] = v__3519822_37;
+R[2] = v__3519824_37;
+R[3] = v__3519823_37;
+R[4] = v__3519821_37;
 saveCont(co, clofun118, 15, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "void entry(struct Cora *co, int label, Obj *R) {\n"));
 return;
 }
 case 1:
 {
-Obj v__3521657_37= co->res;
-Obj v__3519833_37 = R[1];
+Obj v__3521645_37= co->res;
+Obj v__3519821_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "co->ctx.label = 0;\n}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3521656_37= co->res;
-Obj v__3519833_37 = R[1];
-R[1] = v__3519833_37;
+Obj v__3521644_37= co->res;
+Obj v__3519821_37 = R[1];
+R[1] = v__3519821_37;
 saveCont(co, clofun118, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, ";\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3521655_37= co->res;
-Obj v__3519835_37 = R[1];
-Obj v__3519833_37 = R[2];
-R[1] = v__3519833_37;
+Obj v__3521643_37= co->res;
+Obj v__3519823_37 = R[1];
+Obj v__3519821_37 = R[2];
+R[1] = v__3519821_37;
 saveCont(co, clofun118, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519833_37, v__3519835_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519821_37, v__3519823_37);
 return;
 }
 case 4:
 {
-Obj v__3521654_37= co->res;
-Obj v__3519835_37 = R[1];
-Obj v__3519833_37 = R[2];
-R[1] = v__3519835_37;
-R[2] = v__3519833_37;
+Obj v__3521642_37= co->res;
+Obj v__3519823_37 = R[1];
+Obj v__3519821_37 = R[2];
+R[1] = v__3519823_37;
+R[2] = v__3519821_37;
 saveCont(co, clofun118, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "co->ctx.fn = "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "co->ctx.fn = "));
 return;
 }
 case 5:
 {
-Obj v__3521653_37= co->res;
-Obj v__3519835_37 = R[1];
-Obj v__3519833_37 = R[2];
-R[1] = v__3519835_37;
-R[2] = v__3519833_37;
+Obj v__3521641_37= co->res;
+Obj v__3519823_37 = R[1];
+Obj v__3519821_37 = R[2];
+R[1] = v__3519823_37;
+R[2] = v__3519821_37;
 saveCont(co, clofun118, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 6:
 {
-Obj v__3521652_37= co->res;
-Obj v__3519835_37 = R[1];
-Obj v__3519833_37 = R[2];
-R[1] = v__3519835_37;
-R[2] = v__3519833_37;
+Obj v__3521640_37= co->res;
+Obj v__3519823_37 = R[1];
+Obj v__3519821_37 = R[2];
+R[1] = v__3519823_37;
+R[2] = v__3519821_37;
 saveCont(co, clofun118, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519833_37, v__3521652_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519821_37, v__3521640_37);
 return;
 }
 case 7:
 {
-Obj v__3521651_37= co->res;
-Obj v__3519836_37 = R[1];
-Obj v__3519835_37 = R[2];
-Obj v__3519833_37 = R[3];
-R[1] = v__3519835_37;
-R[2] = v__3519833_37;
+Obj v__3521639_37= co->res;
+Obj v__3519824_37 = R[1];
+Obj v__3519823_37 = R[2];
+Obj v__3519821_37 = R[3];
+R[1] = v__3519823_37;
+R[2] = v__3519821_37;
 saveCont(co, clofun118, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519836_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3519824_37);
 return;
 }
 case 8:
 {
-Obj v__3521650_37= co->res;
-Obj v__3519836_37 = R[1];
-Obj v__3519835_37 = R[2];
-Obj v__3519833_37 = R[3];
-R[1] = v__3519836_37;
-R[2] = v__3519835_37;
-R[3] = v__3519833_37;
+Obj v__3521638_37= co->res;
+Obj v__3519824_37 = R[1];
+Obj v__3519823_37 = R[2];
+Obj v__3519821_37 = R[3];
+R[1] = v__3519824_37;
+R[2] = v__3519823_37;
+R[3] = v__3519821_37;
 saveCont(co, clofun118, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "stackAlloc(co, "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "stackAlloc(co, "));
 return;
 }
 case 9:
 {
-Obj v__3521649_37= co->res;
-Obj v__3519836_37 = R[1];
-Obj v__3519835_37 = R[2];
-Obj v__3519833_37 = R[3];
-R[1] = v__3519836_37;
-R[2] = v__3519835_37;
-R[3] = v__3519833_37;
+Obj v__3521637_37= co->res;
+Obj v__3519824_37 = R[1];
+Obj v__3519823_37 = R[2];
+Obj v__3519821_37 = R[3];
+R[1] = v__3519824_37;
+R[2] = v__3519823_37;
+R[3] = v__3519821_37;
 saveCont(co, clofun118, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "addPackage(co, packageID, __symbolTable);\n"));
 return;
 }
 case 10:
 {
-Obj v__3521640_37= co->res;
-Obj v__3519834_37 = R[1];
-Obj v__3519836_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519833_37 = R[4];
-R[1] = v__3519836_37;
-R[2] = v__3519835_37;
-R[3] = v__3519833_37;
+Obj v__3521628_37= co->res;
+Obj v__3519822_37 = R[1];
+Obj v__3519824_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519821_37 = R[4];
+R[1] = v__3519824_37;
+R[2] = v__3519823_37;
+R[3] = v__3519821_37;
 saveCont(co, clofun118, 9, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun117, 2, 1, v__3519833_37), MAKE_NUMBER(0), v__3519834_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun117, 2, 1, v__3519821_37), MAKE_NUMBER(0), v__3519822_37);
 return;
 }
 case 11:
 {
-Obj v__3521639_37= co->res;
-Obj v__3519834_37 = R[1];
-Obj v__3519836_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519833_37 = R[4];
-R[1] = v__3519834_37;
-R[2] = v__3519836_37;
-R[3] = v__3519835_37;
-R[4] = v__3519833_37;
+Obj v__3521627_37= co->res;
+Obj v__3519822_37 = R[1];
+Obj v__3519824_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519821_37 = R[4];
+R[1] = v__3519822_37;
+R[2] = v__3519824_37;
+R[3] = v__3519823_37;
+R[4] = v__3519821_37;
 saveCont(co, clofun118, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, ");\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3521638_37= co->res;
-Obj v__3519834_37 = R[1];
-Obj v__3519836_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519833_37 = R[4];
-R[1] = v__3519834_37;
-R[2] = v__3519836_37;
-R[3] = v__3519835_37;
-R[4] = v__3519833_37;
+Obj v__3521626_37= co->res;
+Obj v__3519822_37 = R[1];
+Obj v__3519824_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519821_37 = R[4];
+R[1] = v__3519822_37;
+R[2] = v__3519824_37;
+R[3] = v__3519823_37;
+R[4] = v__3519821_37;
 saveCont(co, clofun118, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519833_37, v__3521638_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519821_37, v__3521626_37);
 return;
 }
 case 13:
 {
-Obj v__3521637_37= co->res;
-Obj v__3519834_37 = R[1];
-Obj v__3519836_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519833_37 = R[4];
-R[1] = v__3519834_37;
-R[2] = v__3519836_37;
-R[3] = v__3519835_37;
-R[4] = v__3519833_37;
+Obj v__3521625_37= co->res;
+Obj v__3519822_37 = R[1];
+Obj v__3519824_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519821_37 = R[4];
+R[1] = v__3519822_37;
+R[2] = v__3519824_37;
+R[3] = v__3519823_37;
+R[4] = v__3519821_37;
 saveCont(co, clofun118, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3519834_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3519822_37);
 return;
 }
 case 14:
 {
-Obj v__3521636_37= co->res;
-Obj v__3519834_37 = R[1];
-Obj v__3519836_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519833_37 = R[4];
-R[1] = v__3519834_37;
-R[2] = v__3519836_37;
-R[3] = v__3519835_37;
-R[4] = v__3519833_37;
+Obj v__3521624_37= co->res;
+Obj v__3519822_37 = R[1];
+Obj v__3519824_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519821_37 = R[4];
+R[1] = v__3519822_37;
+R[2] = v__3519824_37;
+R[3] = v__3519823_37;
+R[4] = v__3519821_37;
 saveCont(co, clofun118, 13, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "Binding *__symbolTable = malloc(sizeof(Binding) * "));
 return;
 }
 case 15:
 {
-Obj v__3521635_37= co->res;
-Obj v__3519834_37 = R[1];
-Obj v__3519836_37 = R[2];
-Obj v__3519835_37 = R[3];
-Obj v__3519833_37 = R[4];
-R[1] = v__3519834_37;
-R[2] = v__3519836_37;
-R[3] = v__3519835_37;
-R[4] = v__3519833_37;
+Obj v__3521623_37= co->res;
+Obj v__3519822_37 = R[1];
+Obj v__3519824_37 = R[2];
+Obj v__3519823_37 = R[3];
+Obj v__3519821_37 = R[4];
+R[1] = v__3519822_37;
+R[2] = v__3519824_37;
+R[3] = v__3519823_37;
+R[4] = v__3519821_37;
 saveCont(co, clofun118, 14, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519833_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519821_37, makeCString(co->gc, "if (packageID == -1) { packageID = packageIDAlloc(); }\n"));
 return;
 }
 }
@@ -1762,79 +1762,79 @@ static void clofun117(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519837_37 = R[1];
-Obj v__3519838_37 = R[2];
-R[1] = v__3519838_37;
-R[2] = v__3519837_37;
+Obj v__3519825_37 = R[1];
+Obj v__3519826_37 = R[2];
+R[1] = v__3519826_37;
+R[2] = v__3519825_37;
 saveCont(co, clofun117, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "__symbolTable["));
 return;
 }
 case 1:
 {
-Obj v__3521647_37= co->res;
-Obj v__3519837_37 = R[1];
-Obj v__3521648_37 = PRIM_ADD(v__3519837_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521648_37);
+Obj v__3521635_37= co->res;
+Obj v__3519825_37 = R[1];
+Obj v__3521636_37 = PRIM_ADD(v__3519825_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521636_37);
 return;
 }
 case 2:
 {
-Obj v__3521646_37= co->res;
-Obj v__3519837_37 = R[1];
-R[1] = v__3519837_37;
+Obj v__3521634_37= co->res;
+Obj v__3519825_37 = R[1];
+R[1] = v__3519825_37;
 saveCont(co, clofun117, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "\"));\n"));
 return;
 }
 case 3:
 {
-Obj v__3521645_37= co->res;
-Obj v__3519837_37 = R[1];
-R[1] = v__3519837_37;
+Obj v__3521633_37= co->res;
+Obj v__3519825_37 = R[1];
+R[1] = v__3519825_37;
 saveCont(co, clofun117, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3521645_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), v__3521633_37);
 return;
 }
 case 4:
 {
-Obj v__3521644_37= co->res;
-Obj v__3519837_37 = R[1];
-R[1] = v__3519837_37;
+Obj v__3521632_37= co->res;
+Obj v__3519825_37 = R[1];
+R[1] = v__3519825_37;
 saveCont(co, clofun117, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3521644_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3521632_37);
 return;
 }
 case 5:
 {
-Obj v__3521643_37= co->res;
-Obj v__3519838_37 = R[1];
-Obj v__3519837_37 = R[2];
-R[1] = v__3519837_37;
+Obj v__3521631_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3519825_37 = R[2];
+R[1] = v__3519825_37;
 saveCont(co, clofun117, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519838_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 24)), v__3519826_37);
 return;
 }
 case 6:
 {
-Obj v__3521642_37= co->res;
-Obj v__3519838_37 = R[1];
-Obj v__3519837_37 = R[2];
-R[1] = v__3519838_37;
-R[2] = v__3519837_37;
+Obj v__3521630_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3519825_37 = R[2];
+R[1] = v__3519826_37;
+R[2] = v__3519825_37;
 saveCont(co, clofun117, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 0), makeCString(co->gc, "] = bindSymbol(co, intern(\""));
 return;
 }
 case 7:
 {
-Obj v__3521641_37= co->res;
-Obj v__3519838_37 = R[1];
-Obj v__3519837_37 = R[2];
-R[1] = v__3519838_37;
-R[2] = v__3519837_37;
+Obj v__3521629_37= co->res;
+Obj v__3519826_37 = R[1];
+Obj v__3519825_37 = R[2];
+R[1] = v__3519826_37;
+R[2] = v__3519825_37;
 saveCont(co, clofun117, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v__3519837_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 0), v__3519825_37);
 return;
 }
 }
@@ -1844,221 +1844,221 @@ static void clofun116(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519824_37 = R[1];
-Obj v__3519825_37 = R[2];
-Obj v__3519826_37 = R[3];
-Obj v__3521613_37 = PRIM_CAR(v__3519825_37);
-Obj v__3520138_37 = v__3521613_37;
-R[1] = v__3519826_37;
-R[2] = v__3520138_37;
-R[3] = v__3519824_37;
+Obj v__3519812_37 = R[1];
+Obj v__3519813_37 = R[2];
+Obj v__3519814_37 = R[3];
+Obj v__3521601_37 = PRIM_CAR(v__3519813_37);
+Obj v__3520126_37 = v__3521601_37;
+R[1] = v__3519814_37;
+R[2] = v__3520126_37;
+R[3] = v__3519812_37;
 saveCont(co, clofun116, 13, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519825_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519813_37);
 return;
 }
 case 1:
 {
-Obj v__3521633_37= co->res;
-Obj v__3519824_37 = R[1];
+Obj v__3521621_37= co->res;
+Obj v__3519812_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "}\n\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519812_37, makeCString(co->gc, "}\n\n"));
 return;
 }
 case 2:
 {
-Obj v__3521632_37= co->res;
-Obj v__3519824_37 = R[1];
-R[1] = v__3519824_37;
+Obj v__3521620_37= co->res;
+Obj v__3519812_37 = R[1];
+R[1] = v__3519812_37;
 saveCont(co, clofun116, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519812_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3521631_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3520138_37 = R[2];
-Obj v__3520139_37 = R[3];
-Obj v__3519824_37 = R[4];
-R[1] = v__3519824_37;
+Obj v__3521619_37= co->res;
+Obj v__3519814_37 = R[1];
+Obj v__3520126_37 = R[2];
+Obj v__3520127_37 = R[3];
+Obj v__3519812_37 = R[4];
+R[1] = v__3519812_37;
 saveCont(co, clofun116, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun115, 2, 4, v__3519826_37, v__3520138_37, v__3520139_37, v__3519824_37), MAKE_NUMBER(1), v__3521631_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun115, 2, 4, v__3519814_37, v__3520126_37, v__3520127_37, v__3519812_37), MAKE_NUMBER(1), v__3521619_37);
 return;
 }
 case 4:
 {
-Obj v__3521623_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3520138_37 = R[2];
-Obj v__3520139_37 = R[3];
-Obj v__3519824_37 = R[4];
-R[1] = v__3519826_37;
-R[2] = v__3520138_37;
-R[3] = v__3520139_37;
-R[4] = v__3519824_37;
+Obj v__3521611_37= co->res;
+Obj v__3519814_37 = R[1];
+Obj v__3520126_37 = R[2];
+Obj v__3520127_37 = R[3];
+Obj v__3519812_37 = R[4];
+R[1] = v__3519814_37;
+R[2] = v__3520126_37;
+R[3] = v__3520127_37;
+R[4] = v__3519812_37;
 saveCont(co, clofun116, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3520139_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3520127_37);
 return;
 }
 case 5:
 {
-Obj v__3521622_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3520138_37 = R[2];
-Obj v__3520139_37 = R[3];
-Obj v__3519824_37 = R[4];
-R[1] = v__3519826_37;
-R[2] = v__3520138_37;
-R[3] = v__3520139_37;
-R[4] = v__3519824_37;
+Obj v__3521610_37= co->res;
+Obj v__3519814_37 = R[1];
+Obj v__3520126_37 = R[2];
+Obj v__3520127_37 = R[3];
+Obj v__3519812_37 = R[4];
+R[1] = v__3519814_37;
+R[2] = v__3520126_37;
+R[3] = v__3520127_37;
+R[4] = v__3519812_37;
 saveCont(co, clofun116, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "}\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519812_37, makeCString(co->gc, "}\n"));
 return;
 }
 case 6:
 {
-Obj v__3521621_37= co->res;
-Obj v__3520140_37 = R[1];
-Obj v__3520141_37 = R[2];
-Obj v__3519826_37 = R[3];
-Obj v__3520138_37 = R[4];
-Obj v__3520139_37 = R[5];
-Obj v__3519824_37 = R[6];
-R[1] = v__3519826_37;
-R[2] = v__3520138_37;
-R[3] = v__3520139_37;
-R[4] = v__3519824_37;
+Obj v__3521609_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3520129_37 = R[2];
+Obj v__3519814_37 = R[3];
+Obj v__3520126_37 = R[4];
+Obj v__3520127_37 = R[5];
+Obj v__3519812_37 = R[6];
+R[1] = v__3519814_37;
+R[2] = v__3520126_37;
+R[3] = v__3520127_37;
+R[4] = v__3519812_37;
 saveCont(co, clofun116, 5, R);
-Obj __args[5] = {v__3519826_37, v__3520138_37, v__3520140_37, v__3519824_37, v__3520141_37};
+Obj __args[5] = {v__3519814_37, v__3520126_37, v__3520128_37, v__3519812_37, v__3520129_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3521620_37= co->res;
-Obj v__3520140_37 = R[1];
-Obj v__3520141_37 = R[2];
-Obj v__3519826_37 = R[3];
-Obj v__3520138_37 = R[4];
-Obj v__3520139_37 = R[5];
-Obj v__3519824_37 = R[6];
-R[1] = v__3520140_37;
-R[2] = v__3520141_37;
-R[3] = v__3519826_37;
-R[4] = v__3520138_37;
-R[5] = v__3520139_37;
-R[6] = v__3519824_37;
+Obj v__3521608_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3520129_37 = R[2];
+Obj v__3519814_37 = R[3];
+Obj v__3520126_37 = R[4];
+Obj v__3520127_37 = R[5];
+Obj v__3519812_37 = R[6];
+R[1] = v__3520128_37;
+R[2] = v__3520129_37;
+R[3] = v__3519814_37;
+R[4] = v__3520126_37;
+R[5] = v__3520127_37;
+R[6] = v__3519812_37;
 saveCont(co, clofun116, 6, R);
-Obj __args[5] = {v__3519826_37, v__3520138_37, Nil, v__3519824_37, v__3520140_37};
+Obj __args[5] = {v__3519814_37, v__3520126_37, Nil, v__3519812_37, v__3520128_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 8:
 {
-Obj v__3521619_37= co->res;
-Obj v__3520140_37 = R[1];
-Obj v__3520141_37 = R[2];
-Obj v__3519826_37 = R[3];
-Obj v__3520138_37 = R[4];
-Obj v__3520139_37 = R[5];
-Obj v__3519824_37 = R[6];
-R[1] = v__3520140_37;
-R[2] = v__3520141_37;
-R[3] = v__3519826_37;
-R[4] = v__3520138_37;
-R[5] = v__3520139_37;
-R[6] = v__3519824_37;
+Obj v__3521607_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3520129_37 = R[2];
+Obj v__3519814_37 = R[3];
+Obj v__3520126_37 = R[4];
+Obj v__3520127_37 = R[5];
+Obj v__3519812_37 = R[6];
+R[1] = v__3520128_37;
+R[2] = v__3520129_37;
+R[3] = v__3519814_37;
+R[4] = v__3520126_37;
+R[5] = v__3520127_37;
+R[6] = v__3519812_37;
 saveCont(co, clofun116, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, "case 0:\n{\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519812_37, makeCString(co->gc, "case 0:\n{\n"));
 return;
 }
 case 9:
 {
-Obj v__3521618_37= co->res;
-Obj v__3520140_37 = R[1];
-Obj v__3520141_37 = R[2];
-Obj v__3519826_37 = R[3];
-Obj v__3520138_37 = R[4];
-Obj v__3520139_37 = R[5];
-Obj v__3519824_37 = R[6];
-R[1] = v__3520140_37;
-R[2] = v__3520141_37;
-R[3] = v__3519826_37;
-R[4] = v__3520138_37;
-R[5] = v__3520139_37;
-R[6] = v__3519824_37;
+Obj v__3521606_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3520129_37 = R[2];
+Obj v__3519814_37 = R[3];
+Obj v__3520126_37 = R[4];
+Obj v__3520127_37 = R[5];
+Obj v__3519812_37 = R[6];
+R[1] = v__3520128_37;
+R[2] = v__3520129_37;
+R[3] = v__3519814_37;
+R[4] = v__3520126_37;
+R[5] = v__3520127_37;
+R[6] = v__3519812_37;
 saveCont(co, clofun116, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, " switch (label) {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519812_37, makeCString(co->gc, " switch (label) {\n"));
 return;
 }
 case 10:
 {
-Obj v__3521617_37= co->res;
-Obj v__3520140_37 = R[1];
-Obj v__3520141_37 = R[2];
-Obj v__3519826_37 = R[3];
-Obj v__3520138_37 = R[4];
-Obj v__3520139_37 = R[5];
-Obj v__3519824_37 = R[6];
-R[1] = v__3520140_37;
-R[2] = v__3520141_37;
-R[3] = v__3519826_37;
-R[4] = v__3520138_37;
-R[5] = v__3520139_37;
-R[6] = v__3519824_37;
+Obj v__3521605_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3520129_37 = R[2];
+Obj v__3519814_37 = R[3];
+Obj v__3520126_37 = R[4];
+Obj v__3520127_37 = R[5];
+Obj v__3519812_37 = R[6];
+R[1] = v__3520128_37;
+R[2] = v__3520129_37;
+R[3] = v__3519814_37;
+R[4] = v__3520126_37;
+R[5] = v__3520127_37;
+R[6] = v__3519812_37;
 saveCont(co, clofun116, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519824_37, makeCString(co->gc, " {\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519812_37, makeCString(co->gc, " {\n"));
 return;
 }
 case 11:
 {
-Obj v__3521616_37= co->res;
-Obj v__3520140_37 = R[1];
-Obj v__3519826_37 = R[2];
-Obj v__3520138_37 = R[3];
-Obj v__3520139_37 = R[4];
-Obj v__3519824_37 = R[5];
-Obj v__3520141_37 = v__3521616_37;
-R[1] = v__3520140_37;
-R[2] = v__3520141_37;
-R[3] = v__3519826_37;
-R[4] = v__3520138_37;
-R[5] = v__3520139_37;
-R[6] = v__3519824_37;
+Obj v__3521604_37= co->res;
+Obj v__3520128_37 = R[1];
+Obj v__3519814_37 = R[2];
+Obj v__3520126_37 = R[3];
+Obj v__3520127_37 = R[4];
+Obj v__3519812_37 = R[5];
+Obj v__3520129_37 = v__3521604_37;
+R[1] = v__3520128_37;
+R[2] = v__3520129_37;
+R[3] = v__3519814_37;
+R[4] = v__3520126_37;
+R[5] = v__3520127_37;
+R[6] = v__3519812_37;
 saveCont(co, clofun116, 10, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v__3519824_37, v__3520138_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 39)), v__3519812_37, v__3520126_37);
 return;
 }
 case 12:
 {
-Obj v__3521615_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3520138_37 = R[2];
-Obj v__3520139_37 = R[3];
-Obj v__3519824_37 = R[4];
-Obj v__3520140_37 = v__3521615_37;
-R[1] = v__3520140_37;
-R[2] = v__3519826_37;
-R[3] = v__3520138_37;
-R[4] = v__3520139_37;
-R[5] = v__3519824_37;
+Obj v__3521603_37= co->res;
+Obj v__3519814_37 = R[1];
+Obj v__3520126_37 = R[2];
+Obj v__3520127_37 = R[3];
+Obj v__3519812_37 = R[4];
+Obj v__3520128_37 = v__3521603_37;
+R[1] = v__3520128_37;
+R[2] = v__3519814_37;
+R[3] = v__3520126_37;
+R[4] = v__3520127_37;
+R[5] = v__3519812_37;
 saveCont(co, clofun116, 11, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3520139_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3520127_37);
 return;
 }
 case 13:
 {
-Obj v__3521614_37= co->res;
-Obj v__3519826_37 = R[1];
-Obj v__3520138_37 = R[2];
-Obj v__3519824_37 = R[3];
-Obj v__3520139_37 = v__3521614_37;
-R[1] = v__3519826_37;
-R[2] = v__3520138_37;
-R[3] = v__3520139_37;
-R[4] = v__3519824_37;
+Obj v__3521602_37= co->res;
+Obj v__3519814_37 = R[1];
+Obj v__3520126_37 = R[2];
+Obj v__3519812_37 = R[3];
+Obj v__3520127_37 = v__3521602_37;
+R[1] = v__3519814_37;
+R[2] = v__3520126_37;
+R[3] = v__3520127_37;
+R[4] = v__3519812_37;
 saveCont(co, clofun116, 12, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3520139_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3520127_37);
 return;
 }
 }
@@ -2068,73 +2068,73 @@ static void clofun115(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519831_37 = R[1];
-Obj v__3519832_37 = R[2];
-R[1] = v__3519832_37;
-R[2] = v__3519831_37;
+Obj v__3519819_37 = R[1];
+Obj v__3519820_37 = R[2];
+R[1] = v__3519820_37;
+R[2] = v__3519819_37;
 saveCont(co, clofun115, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "case "));
 return;
 }
 case 1:
 {
-Obj v__3521629_37= co->res;
-Obj v__3519831_37 = R[1];
-Obj v__3521630_37 = PRIM_ADD(v__3519831_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521630_37);
+Obj v__3521617_37= co->res;
+Obj v__3519819_37 = R[1];
+Obj v__3521618_37 = PRIM_ADD(v__3519819_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521618_37);
 return;
 }
 case 2:
 {
-Obj v__3521628_37= co->res;
-Obj v__3519831_37 = R[1];
-R[1] = v__3519831_37;
+Obj v__3521616_37= co->res;
+Obj v__3519819_37 = R[1];
+R[1] = v__3519819_37;
 saveCont(co, clofun115, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "}\n"));
 return;
 }
 case 3:
 {
-Obj v__3521627_37= co->res;
-Obj v__3519832_37 = R[1];
-Obj v__3519831_37 = R[2];
-R[1] = v__3519831_37;
+Obj v__3521615_37= co->res;
+Obj v__3519820_37 = R[1];
+Obj v__3519819_37 = R[2];
+R[1] = v__3519819_37;
 saveCont(co, clofun115, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521627_37, closureRef(R[0], 3), v__3519832_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), v__3521615_37, closureRef(R[0], 3), v__3519820_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 40)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3521626_37= co->res;
-Obj v__3519832_37 = R[1];
-Obj v__3519831_37 = R[2];
-R[1] = v__3519832_37;
-R[2] = v__3519831_37;
+Obj v__3521614_37= co->res;
+Obj v__3519820_37 = R[1];
+Obj v__3519819_37 = R[2];
+R[1] = v__3519820_37;
+R[2] = v__3519819_37;
 saveCont(co, clofun115, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), closureRef(R[0], 2));
 return;
 }
 case 5:
 {
-Obj v__3521625_37= co->res;
-Obj v__3519832_37 = R[1];
-Obj v__3519831_37 = R[2];
-R[1] = v__3519832_37;
-R[2] = v__3519831_37;
+Obj v__3521613_37= co->res;
+Obj v__3519820_37 = R[1];
+Obj v__3519819_37 = R[2];
+R[1] = v__3519820_37;
+R[2] = v__3519819_37;
 saveCont(co, clofun115, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ":\n{\n"));
 return;
 }
 case 6:
 {
-Obj v__3521624_37= co->res;
-Obj v__3519832_37 = R[1];
-Obj v__3519831_37 = R[2];
-R[1] = v__3519832_37;
-R[2] = v__3519831_37;
+Obj v__3521612_37= co->res;
+Obj v__3519820_37 = R[1];
+Obj v__3519819_37 = R[2];
+R[1] = v__3519820_37;
+R[2] = v__3519819_37;
 saveCont(co, clofun115, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519831_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519819_37);
 return;
 }
 }
@@ -2144,23 +2144,23 @@ static void clofun114(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519818_37 = R[1];
-Obj v__3519819_37 = R[2];
-Obj v__3521607_37 = PRIM_EQ(Nil, v__3519819_37);
-if (True == v__3521607_37) {
+Obj v__3519806_37 = R[1];
+Obj v__3519807_37 = R[2];
+Obj v__3521595_37 = PRIM_EQ(Nil, v__3519807_37);
+if (True == v__3521595_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521608_37 = PRIM_ISCONS(v__3519819_37);
-if (True == v__3521608_37) {
-Obj v__3521609_37 = PRIM_CAR(v__3519819_37);
-Obj v__3520136_37 = v__3521609_37;
-Obj v__3521610_37 = PRIM_CDR(v__3519819_37);
-Obj v__3520137_37 = v__3521610_37;
-R[1] = v__3519818_37;
-R[2] = v__3520137_37;
+Obj v__3521596_37 = PRIM_ISCONS(v__3519807_37);
+if (True == v__3521596_37) {
+Obj v__3521597_37 = PRIM_CAR(v__3519807_37);
+Obj v__3520124_37 = v__3521597_37;
+Obj v__3521598_37 = PRIM_CDR(v__3519807_37);
+Obj v__3520125_37 = v__3521598_37;
+R[1] = v__3519806_37;
+R[2] = v__3520125_37;
 saveCont(co, clofun114, 1, R);
-coraCall1(co, v__3519818_37, v__3520136_37);
+coraCall1(co, v__3519806_37, v__3520124_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2171,11 +2171,11 @@ return;
 }
 case 1:
 {
-Obj v__3521611_37= co->res;
-Obj v__3519818_37 = R[1];
-Obj v__3520137_37 = R[2];
+Obj v__3521599_37= co->res;
+Obj v__3519806_37 = R[1];
+Obj v__3520125_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3519818_37, v__3520137_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 27)), v__3519806_37, v__3520125_37);
 return;
 }
 }
@@ -2185,47 +2185,47 @@ static void clofun113(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519816_37 = R[1];
-Obj v__3519817_37 = R[2];
-R[1] = v__3519817_37;
+Obj v__3519804_37 = R[1];
+Obj v__3519805_37 = R[2];
+R[1] = v__3519805_37;
 saveCont(co, clofun113, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519816_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 38)), v__3519804_37);
 return;
 }
 case 1:
 {
-Obj v__3521605_37= co->res;
+Obj v__3521593_37= co->res;
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3521605_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 34)), v__3521593_37);
 return;
 }
 case 2:
 {
-Obj v__3521604_37= co->res;
+Obj v__3521592_37= co->res;
 saveCont(co, clofun113, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3521604_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 35)), v__3521592_37);
 return;
 }
 case 3:
 {
-Obj v__3521603_37= co->res;
+Obj v__3521591_37= co->res;
 saveCont(co, clofun113, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521603_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 36)), v__3521591_37);
 return;
 }
 case 4:
 {
-Obj v__3521602_37= co->res;
+Obj v__3521590_37= co->res;
 saveCont(co, clofun113, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521602_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 37)), v__3521590_37);
 return;
 }
 case 5:
 {
-Obj v__3521601_37= co->res;
-Obj v__3519817_37 = R[1];
+Obj v__3521589_37= co->res;
+Obj v__3519805_37 = R[1];
 saveCont(co, clofun113, 4, R);
-coraCall1(co, v__3521601_37, v__3519817_37);
+coraCall1(co, v__3521589_37, v__3519805_37);
 return;
 }
 }
@@ -2235,29 +2235,29 @@ static void clofun112(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519813_37 = R[1];
-R[1] = v__3519813_37;
+Obj v__3519801_37 = R[1];
+R[1] = v__3519801_37;
 saveCont(co, clofun112, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519813_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519801_37);
 return;
 }
 case 1:
 {
-Obj v__3521599_37= co->res;
-Obj v__3520134_37 = R[1];
-Obj v__3520135_37 = v__3521599_37;
+Obj v__3521587_37= co->res;
+Obj v__3520122_37 = R[1];
+Obj v__3520123_37 = v__3521587_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3520134_37, v__3520135_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3520122_37, v__3520123_37);
 return;
 }
 case 2:
 {
-Obj v__3521598_37= co->res;
-Obj v__3519813_37 = R[1];
-Obj v__3520134_37 = v__3521598_37;
-R[1] = v__3520134_37;
+Obj v__3521586_37= co->res;
+Obj v__3519801_37 = R[1];
+Obj v__3520122_37 = v__3521586_37;
+R[1] = v__3520122_37;
 saveCont(co, clofun112, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v__3519813_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 29)), v__3519801_37);
 return;
 }
 }
@@ -2267,23 +2267,23 @@ static void clofun111(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519807_37 = R[1];
-Obj v__3519808_37 = R[2];
-Obj v__3521591_37 = PRIM_EQ(Nil, v__3519808_37);
-if (True == v__3521591_37) {
-coraReturn(co, v__3519807_37);
+Obj v__3519795_37 = R[1];
+Obj v__3519796_37 = R[2];
+Obj v__3521579_37 = PRIM_EQ(Nil, v__3519796_37);
+if (True == v__3521579_37) {
+coraReturn(co, v__3519795_37);
 return;
 } else {
-Obj v__3521592_37 = PRIM_ISCONS(v__3519808_37);
-if (True == v__3521592_37) {
-Obj v__3521593_37 = PRIM_CAR(v__3519808_37);
-Obj v__3520132_37 = v__3521593_37;
-Obj v__3521594_37 = PRIM_CDR(v__3519808_37);
-Obj v__3520133_37 = v__3521594_37;
-Obj v__3521595_37 = makeCons(co->gc, v__3519807_37, Nil);
-Obj v__3521596_37 = makeCons(co->gc, v__3520132_37, v__3521595_37);
+Obj v__3521580_37 = PRIM_ISCONS(v__3519796_37);
+if (True == v__3521580_37) {
+Obj v__3521581_37 = PRIM_CAR(v__3519796_37);
+Obj v__3520120_37 = v__3521581_37;
+Obj v__3521582_37 = PRIM_CDR(v__3519796_37);
+Obj v__3520121_37 = v__3521582_37;
+Obj v__3521583_37 = makeCons(co->gc, v__3519795_37, Nil);
+Obj v__3521584_37 = makeCons(co->gc, v__3520120_37, v__3521583_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3521596_37, v__3520133_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 32)), v__3521584_37, v__3520121_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -2299,70 +2299,70 @@ static void clofun110(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519803_37 = R[1];
-R[1] = v__3519803_37;
+Obj v__3519791_37 = R[1];
+R[1] = v__3519791_37;
 saveCont(co, clofun110, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 33)), MAKE_NUMBER(2));
 return;
 }
 case 1:
 {
-Obj v__3521589_37= co->res;
-Obj v__3520129_37 = R[1];
+Obj v__3521577_37= co->res;
+Obj v__3520117_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3520129_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3520117_37, MAKE_NUMBER(1));
 return;
 }
 case 2:
 {
-Obj v__3521588_37= co->res;
-Obj v__3520129_37 = R[1];
-Obj v__3520131_37 = v__3521588_37;
-R[1] = v__3520129_37;
+Obj v__3521576_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520119_37 = v__3521576_37;
+R[1] = v__3520117_37;
 saveCont(co, clofun110, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3520129_37, v__3520131_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3520117_37, v__3520119_37);
 return;
 }
 case 3:
 {
-Obj v__3521587_37= co->res;
-Obj v__3520129_37 = R[1];
-Obj v__3520130_37 = v__3521587_37;
-R[1] = v__3520129_37;
+Obj v__3521575_37= co->res;
+Obj v__3520117_37 = R[1];
+Obj v__3520118_37 = v__3521575_37;
+R[1] = v__3520117_37;
 saveCont(co, clofun110, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3520130_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), Nil, v__3520118_37);
 return;
 }
 case 4:
 {
-Obj v__3521586_37= co->res;
-Obj v__3519803_37 = R[1];
-Obj v__3520129_37 = R[2];
-R[1] = v__3520129_37;
+Obj v__3521574_37= co->res;
+Obj v__3519791_37 = R[1];
+Obj v__3520117_37 = R[2];
+R[1] = v__3520117_37;
 saveCont(co, clofun110, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3520129_37, v__3519803_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3520117_37, v__3519791_37);
 return;
 }
 case 5:
 {
-Obj v__3521585_37= co->res;
-Obj v__3519803_37 = R[1];
-Obj v__3520129_37 = R[2];
-R[1] = v__3519803_37;
-R[2] = v__3520129_37;
+Obj v__3521573_37= co->res;
+Obj v__3519791_37 = R[1];
+Obj v__3520117_37 = R[2];
+R[1] = v__3519791_37;
+R[2] = v__3520117_37;
 saveCont(co, clofun110, 4, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520129_37, MAKE_NUMBER(1), Nil);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520117_37, MAKE_NUMBER(1), Nil);
 return;
 }
 case 6:
 {
-Obj v__3521584_37= co->res;
-Obj v__3519803_37 = R[1];
-Obj v__3520129_37 = v__3521584_37;
-R[1] = v__3519803_37;
-R[2] = v__3520129_37;
+Obj v__3521572_37= co->res;
+Obj v__3519791_37 = R[1];
+Obj v__3520117_37 = v__3521572_37;
+R[1] = v__3519791_37;
+R[2] = v__3520117_37;
 saveCont(co, clofun110, 5, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520129_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3520117_37, MAKE_NUMBER(0), MAKE_NUMBER(0));
 return;
 }
 }
@@ -2372,9 +2372,9 @@ static void clofun109(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519802_37 = R[1];
+Obj v__3519790_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v__3519802_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), Nil, v__3519790_37);
 return;
 }
 }
@@ -2384,9 +2384,9 @@ static void clofun108(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519801_37 = R[1];
+Obj v__3519789_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3519801_37, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3519789_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 }
 }
@@ -2396,9 +2396,9 @@ static void clofun107(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519800_37 = R[1];
+Obj v__3519788_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), Nil, v__3519800_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), Nil, v__3519788_37);
 return;
 }
 }
@@ -2408,10 +2408,10 @@ static void clofun106(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519798_37 = R[1];
-Obj v__3519799_37 = R[2];
+Obj v__3519786_37 = R[1];
+Obj v__3519787_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), Nil, v__3519798_37, v__3519799_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), Nil, v__3519786_37, v__3519787_37);
 return;
 }
 }
@@ -2421,39 +2421,39 @@ static void clofun105(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519796_37 = R[1];
-Obj v__3519797_37 = R[2];
-R[1] = v__3519797_37;
-R[2] = v__3519796_37;
+Obj v__3519784_37 = R[1];
+Obj v__3519785_37 = R[2];
+R[1] = v__3519785_37;
+R[2] = v__3519784_37;
 saveCont(co, clofun105, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519796_37, makeCString(co->gc, "static void "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519784_37, makeCString(co->gc, "static void "));
 return;
 }
 case 1:
 {
-Obj v__3521578_37= co->res;
-Obj v__3519796_37 = R[1];
+Obj v__3521566_37= co->res;
+Obj v__3519784_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519796_37, makeCString(co->gc, ")"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519784_37, makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521577_37= co->res;
-Obj v__3519796_37 = R[1];
-R[1] = v__3519796_37;
+Obj v__3521565_37= co->res;
+Obj v__3519784_37 = R[1];
+R[1] = v__3519784_37;
 saveCont(co, clofun105, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519796_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519784_37, makeCString(co->gc, "(struct Cora* co, int label, Obj *R"));
 return;
 }
 case 3:
 {
-Obj v__3521576_37= co->res;
-Obj v__3519797_37 = R[1];
-Obj v__3519796_37 = R[2];
-R[1] = v__3519796_37;
+Obj v__3521564_37= co->res;
+Obj v__3519785_37 = R[1];
+Obj v__3519784_37 = R[2];
+R[1] = v__3519784_37;
 saveCont(co, clofun105, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519796_37, v__3519797_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), v__3519784_37, v__3519785_37);
 return;
 }
 }
@@ -2463,21 +2463,21 @@ static void clofun104(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519794_37 = R[1];
-Obj v__3519795_37 = R[2];
-R[1] = v__3519794_37;
-R[2] = v__3519795_37;
+Obj v__3519782_37 = R[1];
+Obj v__3519783_37 = R[2];
+R[1] = v__3519782_37;
+R[2] = v__3519783_37;
 saveCont(co, clofun104, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519794_37, makeCString(co->gc, "clofun"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519782_37, makeCString(co->gc, "clofun"));
 return;
 }
 case 1:
 {
-Obj v__3521574_37= co->res;
-Obj v__3519794_37 = R[1];
-Obj v__3519795_37 = R[2];
+Obj v__3521562_37= co->res;
+Obj v__3519782_37 = R[1];
+Obj v__3519783_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519794_37, v__3519795_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), v__3519782_37, v__3519783_37);
 return;
 }
 }
@@ -2487,136 +2487,136 @@ static void clofun103(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519785_37 = R[1];
-Obj v__3519786_37 = R[2];
-Obj v__3519787_37 = R[3];
-Obj v__3519788_37 = R[4];
-Obj v__3519789_37 = R[5];
-Obj v__3520125_37 = makeNative(co->gc, 1, clofun102, 0, 0);
-Obj v__3521552_37 = PRIM_ISCONS(v__3519789_37);
-if (True == v__3521552_37) {
-Obj v__3521553_37 = PRIM_CAR(v__3519789_37);
-Obj v__3521554_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3521553_37);
-if (True == v__3521554_37) {
-Obj v__3521555_37 = PRIM_CDR(v__3519789_37);
-Obj v__3521556_37 = PRIM_ISCONS(v__3521555_37);
-if (True == v__3521556_37) {
-Obj v__3521557_37 = PRIM_CDR(v__3519789_37);
-Obj v__3521558_37 = PRIM_CAR(v__3521557_37);
-Obj v__3520126_37 = v__3521558_37;
-Obj v__3521559_37 = PRIM_CDR(v__3519789_37);
-Obj v__3521560_37 = PRIM_CDR(v__3521559_37);
-Obj v__3521561_37 = PRIM_ISCONS(v__3521560_37);
-if (True == v__3521561_37) {
-Obj v__3521562_37 = PRIM_CDR(v__3519789_37);
-Obj v__3521563_37 = PRIM_CDR(v__3521562_37);
-Obj v__3521564_37 = PRIM_CAR(v__3521563_37);
-Obj v__3520127_37 = v__3521564_37;
-Obj v__3521565_37 = PRIM_CDR(v__3519789_37);
-Obj v__3521566_37 = PRIM_CDR(v__3521565_37);
-Obj v__3521567_37 = PRIM_CDR(v__3521566_37);
-Obj v__3520128_37 = v__3521567_37;
-R[1] = v__3520126_37;
-R[2] = v__3520128_37;
-R[3] = v__3519785_37;
-R[4] = v__3519786_37;
-R[5] = v__3519787_37;
-R[6] = v__3519788_37;
-R[7] = v__3520127_37;
+Obj v__3519773_37 = R[1];
+Obj v__3519774_37 = R[2];
+Obj v__3519775_37 = R[3];
+Obj v__3519776_37 = R[4];
+Obj v__3519777_37 = R[5];
+Obj v__3520113_37 = makeNative(co->gc, 1, clofun102, 0, 0);
+Obj v__3521540_37 = PRIM_ISCONS(v__3519777_37);
+if (True == v__3521540_37) {
+Obj v__3521541_37 = PRIM_CAR(v__3519777_37);
+Obj v__3521542_37 = PRIM_EQ(getBinding(co, packageID, 62).name, v__3521541_37);
+if (True == v__3521542_37) {
+Obj v__3521543_37 = PRIM_CDR(v__3519777_37);
+Obj v__3521544_37 = PRIM_ISCONS(v__3521543_37);
+if (True == v__3521544_37) {
+Obj v__3521545_37 = PRIM_CDR(v__3519777_37);
+Obj v__3521546_37 = PRIM_CAR(v__3521545_37);
+Obj v__3520114_37 = v__3521546_37;
+Obj v__3521547_37 = PRIM_CDR(v__3519777_37);
+Obj v__3521548_37 = PRIM_CDR(v__3521547_37);
+Obj v__3521549_37 = PRIM_ISCONS(v__3521548_37);
+if (True == v__3521549_37) {
+Obj v__3521550_37 = PRIM_CDR(v__3519777_37);
+Obj v__3521551_37 = PRIM_CDR(v__3521550_37);
+Obj v__3521552_37 = PRIM_CAR(v__3521551_37);
+Obj v__3520115_37 = v__3521552_37;
+Obj v__3521553_37 = PRIM_CDR(v__3519777_37);
+Obj v__3521554_37 = PRIM_CDR(v__3521553_37);
+Obj v__3521555_37 = PRIM_CDR(v__3521554_37);
+Obj v__3520116_37 = v__3521555_37;
+R[1] = v__3520114_37;
+R[2] = v__3520116_37;
+R[3] = v__3519773_37;
+R[4] = v__3519774_37;
+R[5] = v__3519775_37;
+R[6] = v__3519776_37;
+R[7] = v__3520115_37;
 saveCont(co, clofun103, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519788_37, makeCString(co->gc, "Obj "));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519776_37, makeCString(co->gc, "Obj "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520125_37);
+coraCall0(co, v__3520113_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520125_37);
+coraCall0(co, v__3520113_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520125_37);
+coraCall0(co, v__3520113_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520125_37);
+coraCall0(co, v__3520113_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521572_37= co->res;
-Obj v__3519785_37 = R[1];
-Obj v__3519786_37 = R[2];
-Obj v__3519787_37 = R[3];
-Obj v__3519788_37 = R[4];
-Obj v__3520127_37 = R[5];
+Obj v__3521560_37= co->res;
+Obj v__3519773_37 = R[1];
+Obj v__3519774_37 = R[2];
+Obj v__3519775_37 = R[3];
+Obj v__3519776_37 = R[4];
+Obj v__3520115_37 = R[5];
 co->ctx.sp = R;
-Obj __args[5] = {v__3519785_37, v__3519786_37, v__3519787_37, v__3519788_37, v__3520127_37};
+Obj __args[5] = {v__3519773_37, v__3519774_37, v__3519775_37, v__3519776_37, v__3520115_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 2:
 {
-Obj v__3521571_37= co->res;
-Obj v__3520128_37 = R[1];
-Obj v__3519785_37 = R[2];
-Obj v__3519786_37 = R[3];
-Obj v__3519787_37 = R[4];
-Obj v__3519788_37 = R[5];
-Obj v__3520127_37 = R[6];
-R[1] = v__3519785_37;
-R[2] = v__3519786_37;
-R[3] = v__3519787_37;
-R[4] = v__3519788_37;
-R[5] = v__3520127_37;
+Obj v__3521559_37= co->res;
+Obj v__3520116_37 = R[1];
+Obj v__3519773_37 = R[2];
+Obj v__3519774_37 = R[3];
+Obj v__3519775_37 = R[4];
+Obj v__3519776_37 = R[5];
+Obj v__3520115_37 = R[6];
+R[1] = v__3519773_37;
+R[2] = v__3519774_37;
+R[3] = v__3519775_37;
+R[4] = v__3519776_37;
+R[5] = v__3520115_37;
 saveCont(co, clofun103, 1, R);
-Obj __args[5] = {v__3519785_37, v__3519786_37, v__3519787_37, v__3519788_37, v__3520128_37};
+Obj __args[5] = {v__3519773_37, v__3519774_37, v__3519775_37, v__3519776_37, v__3520116_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 45)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521570_37= co->res;
-Obj v__3520128_37 = R[1];
-Obj v__3519785_37 = R[2];
-Obj v__3519786_37 = R[3];
-Obj v__3519787_37 = R[4];
-Obj v__3519788_37 = R[5];
-Obj v__3520127_37 = R[6];
-R[1] = v__3520128_37;
-R[2] = v__3519785_37;
-R[3] = v__3519786_37;
-R[4] = v__3519787_37;
-R[5] = v__3519788_37;
-R[6] = v__3520127_37;
+Obj v__3521558_37= co->res;
+Obj v__3520116_37 = R[1];
+Obj v__3519773_37 = R[2];
+Obj v__3519774_37 = R[3];
+Obj v__3519775_37 = R[4];
+Obj v__3519776_37 = R[5];
+Obj v__3520115_37 = R[6];
+R[1] = v__3520116_37;
+R[2] = v__3519773_37;
+R[3] = v__3519774_37;
+R[4] = v__3519775_37;
+R[5] = v__3519776_37;
+R[6] = v__3520115_37;
 saveCont(co, clofun103, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519788_37, makeCString(co->gc, "= co->res;\n"));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), v__3519776_37, makeCString(co->gc, "= co->res;\n"));
 return;
 }
 case 4:
 {
-Obj v__3521568_37= co->res;
-Obj v__3520126_37 = R[1];
-Obj v__3520128_37 = R[2];
-Obj v__3519785_37 = R[3];
-Obj v__3519786_37 = R[4];
-Obj v__3519787_37 = R[5];
-Obj v__3519788_37 = R[6];
-Obj v__3520127_37 = R[7];
-Obj v__3521569_37 = PRIM_CAR(v__3520126_37);
-R[1] = v__3520128_37;
-R[2] = v__3519785_37;
-R[3] = v__3519786_37;
-R[4] = v__3519787_37;
-R[5] = v__3519788_37;
-R[6] = v__3520127_37;
+Obj v__3521556_37= co->res;
+Obj v__3520114_37 = R[1];
+Obj v__3520116_37 = R[2];
+Obj v__3519773_37 = R[3];
+Obj v__3519774_37 = R[4];
+Obj v__3519775_37 = R[5];
+Obj v__3519776_37 = R[6];
+Obj v__3520115_37 = R[7];
+Obj v__3521557_37 = PRIM_CAR(v__3520114_37);
+R[1] = v__3520116_37;
+R[2] = v__3519773_37;
+R[3] = v__3519774_37;
+R[4] = v__3519775_37;
+R[5] = v__3519776_37;
+R[6] = v__3520115_37;
 saveCont(co, clofun103, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519788_37, v__3521569_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), v__3519776_37, v__3521557_37);
 return;
 }
 }
@@ -2637,25 +2637,25 @@ static void clofun101(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519774_37 = R[1];
-Obj v__3519775_37 = R[2];
-Obj v__3519776_37 = R[3];
-Obj v__3519777_37 = R[4];
-Obj v__3519778_37 = R[5];
-Obj v__3521538_37 = primGenSym(co);
-Obj v__3520122_37 = v__3521538_37;
-Obj v__3521549_37 = primSet(co, v__3520122_37, makeNative(co->gc, 2, clofun100, 1, 5, v__3519774_37, v__3519775_37, v__3519776_37, v__3519777_37, v__3520122_37));
-R[1] = v__3519778_37;
+Obj v__3519762_37 = R[1];
+Obj v__3519763_37 = R[2];
+Obj v__3519764_37 = R[3];
+Obj v__3519765_37 = R[4];
+Obj v__3519766_37 = R[5];
+Obj v__3521526_37 = primGenSym(co);
+Obj v__3520110_37 = v__3521526_37;
+Obj v__3521537_37 = primSet(co, v__3520110_37, makeNative(co->gc, 2, clofun100, 1, 5, v__3519762_37, v__3519763_37, v__3519764_37, v__3519765_37, v__3520110_37));
+R[1] = v__3519766_37;
 saveCont(co, clofun101, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520122_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520110_37);
 return;
 }
 case 1:
 {
-Obj v__3521550_37= co->res;
-Obj v__3519778_37 = R[1];
+Obj v__3521538_37= co->res;
+Obj v__3519766_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521550_37, v__3519778_37);
+coraCall1(co, v__3521538_37, v__3519766_37);
 return;
 }
 }
@@ -2665,21 +2665,21 @@ static void clofun100(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519780_37 = R[1];
-Obj v__3521539_37 = PRIM_EQ(Nil, v__3519780_37);
-if (True == v__3521539_37) {
+Obj v__3519768_37 = R[1];
+Obj v__3521527_37 = PRIM_EQ(Nil, v__3519768_37);
+if (True == v__3521527_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521540_37 = PRIM_ISCONS(v__3519780_37);
-if (True == v__3521540_37) {
-Obj v__3521541_37 = PRIM_CAR(v__3519780_37);
-Obj v__3520123_37 = v__3521541_37;
-Obj v__3521542_37 = PRIM_CDR(v__3519780_37);
-Obj v__3520124_37 = v__3521542_37;
-R[1] = v__3520124_37;
+Obj v__3521528_37 = PRIM_ISCONS(v__3519768_37);
+if (True == v__3521528_37) {
+Obj v__3521529_37 = PRIM_CAR(v__3519768_37);
+Obj v__3520111_37 = v__3521529_37;
+Obj v__3521530_37 = PRIM_CDR(v__3519768_37);
+Obj v__3520112_37 = v__3521530_37;
+R[1] = v__3520112_37;
 saveCont(co, clofun100, 5, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3520123_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3520111_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 } else {
@@ -2691,42 +2691,42 @@ return;
 }
 case 1:
 {
-Obj v__3521547_37= co->res;
-Obj v__3520124_37 = R[1];
+Obj v__3521535_37= co->res;
+Obj v__3520112_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521547_37, v__3520124_37);
+coraCall1(co, v__3521535_37, v__3520112_37);
 return;
 }
 case 2:
 {
-Obj v__3521546_37= co->res;
-Obj v__3520124_37 = R[1];
-R[1] = v__3520124_37;
+Obj v__3521534_37= co->res;
+Obj v__3520112_37 = R[1];
+R[1] = v__3520112_37;
 saveCont(co, clofun100, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521548_37= co->res;
-Obj v__3520124_37 = R[1];
+Obj v__3521536_37= co->res;
+Obj v__3520112_37 = R[1];
 co->ctx.sp = R;
-coraCall1(co, v__3521548_37, v__3520124_37);
+coraCall1(co, v__3521536_37, v__3520112_37);
 return;
 }
 case 4:
 {
-Obj v__3521544_37= co->res;
-Obj v__3520124_37 = R[1];
-Obj v__3521545_37 = primNot(v__3521544_37);
-if (True == v__3521545_37) {
-R[1] = v__3520124_37;
+Obj v__3521532_37= co->res;
+Obj v__3520112_37 = R[1];
+Obj v__3521533_37 = primNot(v__3521532_37);
+if (True == v__3521533_37) {
+R[1] = v__3520112_37;
 saveCont(co, clofun100, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ", "));
 return;
 } else {
 Nil;
-R[1] = v__3520124_37;
+R[1] = v__3520112_37;
 saveCont(co, clofun100, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
@@ -2734,11 +2734,11 @@ return;
 }
 case 5:
 {
-Obj v__3521543_37= co->res;
-Obj v__3520124_37 = R[1];
-R[1] = v__3520124_37;
+Obj v__3521531_37= co->res;
+Obj v__3520112_37 = R[1];
+R[1] = v__3520112_37;
 saveCont(co, clofun100, 4, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520124_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520112_37);
 return;
 }
 }
@@ -2748,27 +2748,27 @@ static void clofun99(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519730_37 = R[1];
-Obj v__3519731_37 = R[2];
-Obj v__3519732_37 = R[3];
-Obj v__3519733_37 = R[4];
-Obj v__3519734_37 = R[5];
-Obj v__3521251_37 = primGenSym(co);
-Obj v__3520085_37 = v__3521251_37;
-Obj v__3521535_37 = primSet(co, v__3520085_37, makeNative(co->gc, 3, clofun98, 2, 4, v__3519731_37, v__3520085_37, v__3519730_37, v__3519733_37));
-R[1] = v__3519734_37;
-R[2] = v__3519732_37;
+Obj v__3519718_37 = R[1];
+Obj v__3519719_37 = R[2];
+Obj v__3519720_37 = R[3];
+Obj v__3519721_37 = R[4];
+Obj v__3519722_37 = R[5];
+Obj v__3521239_37 = primGenSym(co);
+Obj v__3520073_37 = v__3521239_37;
+Obj v__3521523_37 = primSet(co, v__3520073_37, makeNative(co->gc, 3, clofun98, 2, 4, v__3519719_37, v__3520073_37, v__3519718_37, v__3519721_37));
+R[1] = v__3519722_37;
+R[2] = v__3519720_37;
 saveCont(co, clofun99, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520085_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3520073_37);
 return;
 }
 case 1:
 {
-Obj v__3521536_37= co->res;
-Obj v__3519734_37 = R[1];
-Obj v__3519732_37 = R[2];
+Obj v__3521524_37= co->res;
+Obj v__3519722_37 = R[1];
+Obj v__3519720_37 = R[2];
 co->ctx.sp = R;
-coraCall2(co, v__3521536_37, v__3519734_37, v__3519732_37);
+coraCall2(co, v__3521524_37, v__3519722_37, v__3519720_37);
 return;
 }
 }
@@ -2778,76 +2778,76 @@ static void clofun98(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519736_37 = R[1];
-Obj v__3519737_37 = R[2];
-Obj v__3521252_37 = primIsSymbol(v__3519736_37);
-if (True == v__3521252_37) {
-co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3519736_37);
-return;
-} else {
-Obj v__3520086_37 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519737_37, closureRef(R[0], 2), v__3519736_37, closureRef(R[0], 3));
-Obj v__3521522_37 = PRIM_ISCONS(v__3519736_37);
-if (True == v__3521522_37) {
-Obj v__3521523_37 = PRIM_CAR(v__3519736_37);
-Obj v__3521524_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3521523_37);
-if (True == v__3521524_37) {
-Obj v__3521525_37 = PRIM_CDR(v__3519736_37);
-Obj v__3521526_37 = PRIM_ISCONS(v__3521525_37);
-if (True == v__3521526_37) {
-Obj v__3521527_37 = PRIM_CDR(v__3519736_37);
-Obj v__3521528_37 = PRIM_CAR(v__3521527_37);
-Obj v__3520121_37 = v__3521528_37;
-Obj v__3521529_37 = PRIM_CDR(v__3519736_37);
-Obj v__3521530_37 = PRIM_CDR(v__3521529_37);
-Obj v__3521531_37 = PRIM_EQ(Nil, v__3521530_37);
-if (True == v__3521531_37) {
-R[1] = v__3520121_37;
+Obj v__3519724_37 = R[1];
+Obj v__3519725_37 = R[2];
+Obj v__3521240_37 = primIsSymbol(v__3519724_37);
+if (True == v__3521240_37) {
+co->ctx.sp = R;
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3519724_37);
+return;
+} else {
+Obj v__3520074_37 = makeNative(co->gc, 2, clofun97, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), v__3519725_37, closureRef(R[0], 2), v__3519724_37, closureRef(R[0], 3));
+Obj v__3521510_37 = PRIM_ISCONS(v__3519724_37);
+if (True == v__3521510_37) {
+Obj v__3521511_37 = PRIM_CAR(v__3519724_37);
+Obj v__3521512_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3521511_37);
+if (True == v__3521512_37) {
+Obj v__3521513_37 = PRIM_CDR(v__3519724_37);
+Obj v__3521514_37 = PRIM_ISCONS(v__3521513_37);
+if (True == v__3521514_37) {
+Obj v__3521515_37 = PRIM_CDR(v__3519724_37);
+Obj v__3521516_37 = PRIM_CAR(v__3521515_37);
+Obj v__3520109_37 = v__3521516_37;
+Obj v__3521517_37 = PRIM_CDR(v__3519724_37);
+Obj v__3521518_37 = PRIM_CDR(v__3521517_37);
+Obj v__3521519_37 = PRIM_EQ(Nil, v__3521518_37);
+if (True == v__3521519_37) {
+R[1] = v__3520109_37;
 saveCont(co, clofun98, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "globalRef(co, getBinding(co, packageID, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520086_37);
+coraCall0(co, v__3520074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520086_37);
+coraCall0(co, v__3520074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520086_37);
+coraCall0(co, v__3520074_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520086_37);
+coraCall0(co, v__3520074_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521534_37= co->res;
+Obj v__3521522_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "))"));
 return;
 }
 case 2:
 {
-Obj v__3521533_37= co->res;
+Obj v__3521521_37= co->res;
 saveCont(co, clofun98, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3521533_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3521521_37);
 return;
 }
 case 3:
 {
-Obj v__3521532_37= co->res;
-Obj v__3520121_37 = R[1];
+Obj v__3521520_37= co->res;
+Obj v__3520109_37 = R[1];
 saveCont(co, clofun98, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520121_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520109_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -2857,60 +2857,60 @@ static void clofun97(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520087_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
-Obj v__3521510_37 = PRIM_ISCONS(closureRef(R[0], 4));
-if (True == v__3521510_37) {
-Obj v__3521511_37 = PRIM_CAR(closureRef(R[0], 4));
-Obj v__3521512_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3521511_37);
-if (True == v__3521512_37) {
-Obj v__3521513_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521514_37 = PRIM_ISCONS(v__3521513_37);
-if (True == v__3521514_37) {
-Obj v__3521515_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521516_37 = PRIM_CAR(v__3521515_37);
-Obj v__3520120_37 = v__3521516_37;
-Obj v__3521517_37 = PRIM_CDR(closureRef(R[0], 4));
-Obj v__3521518_37 = PRIM_CDR(v__3521517_37);
-Obj v__3521519_37 = PRIM_EQ(Nil, v__3521518_37);
-if (True == v__3521519_37) {
-R[1] = v__3520120_37;
+Obj v__3520075_37 = makeNative(co->gc, 2, clofun96, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 3), closureRef(R[0], 5));
+Obj v__3521498_37 = PRIM_ISCONS(closureRef(R[0], 4));
+if (True == v__3521498_37) {
+Obj v__3521499_37 = PRIM_CAR(closureRef(R[0], 4));
+Obj v__3521500_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3521499_37);
+if (True == v__3521500_37) {
+Obj v__3521501_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521502_37 = PRIM_ISCONS(v__3521501_37);
+if (True == v__3521502_37) {
+Obj v__3521503_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521504_37 = PRIM_CAR(v__3521503_37);
+Obj v__3520108_37 = v__3521504_37;
+Obj v__3521505_37 = PRIM_CDR(closureRef(R[0], 4));
+Obj v__3521506_37 = PRIM_CDR(v__3521505_37);
+Obj v__3521507_37 = PRIM_EQ(Nil, v__3521506_37);
+if (True == v__3521507_37) {
+R[1] = v__3520108_37;
 saveCont(co, clofun97, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "closureRef(R[0], "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520087_37);
+coraCall0(co, v__3520075_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520087_37);
+coraCall0(co, v__3520075_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520087_37);
+coraCall0(co, v__3520075_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520087_37);
+coraCall0(co, v__3520075_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521521_37= co->res;
+Obj v__3521509_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521520_37= co->res;
-Obj v__3520120_37 = R[1];
+Obj v__3521508_37= co->res;
+Obj v__3520108_37 = R[1];
 saveCont(co, clofun97, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520120_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520108_37);
 return;
 }
 }
@@ -2920,145 +2920,145 @@ static void clofun96(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520088_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3521486_37 = PRIM_ISCONS(closureRef(R[0], 3));
-if (True == v__3521486_37) {
-Obj v__3521487_37 = PRIM_CAR(closureRef(R[0], 3));
-Obj v__3521488_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3521487_37);
-if (True == v__3521488_37) {
-Obj v__3521489_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521490_37 = PRIM_ISCONS(v__3521489_37);
-if (True == v__3521490_37) {
-Obj v__3521491_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521492_37 = PRIM_CAR(v__3521491_37);
-Obj v__3520119_37 = v__3521492_37;
-Obj v__3521493_37 = PRIM_CDR(closureRef(R[0], 3));
-Obj v__3521494_37 = PRIM_CDR(v__3521493_37);
-Obj v__3521495_37 = PRIM_EQ(Nil, v__3521494_37);
-if (True == v__3521495_37) {
-Obj v__3521496_37 = primIsSymbol(v__3520119_37);
-if (True == v__3521496_37) {
-R[1] = v__3520119_37;
+Obj v__3520076_37 = makeNative(co->gc, 4, clofun95, 0, 6, closureRef(R[0], 4), closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 5), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521474_37 = PRIM_ISCONS(closureRef(R[0], 3));
+if (True == v__3521474_37) {
+Obj v__3521475_37 = PRIM_CAR(closureRef(R[0], 3));
+Obj v__3521476_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3521475_37);
+if (True == v__3521476_37) {
+Obj v__3521477_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521478_37 = PRIM_ISCONS(v__3521477_37);
+if (True == v__3521478_37) {
+Obj v__3521479_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521480_37 = PRIM_CAR(v__3521479_37);
+Obj v__3520107_37 = v__3521480_37;
+Obj v__3521481_37 = PRIM_CDR(closureRef(R[0], 3));
+Obj v__3521482_37 = PRIM_CDR(v__3521481_37);
+Obj v__3521483_37 = PRIM_EQ(Nil, v__3521482_37);
+if (True == v__3521483_37) {
+Obj v__3521484_37 = primIsSymbol(v__3520107_37);
+if (True == v__3521484_37) {
+R[1] = v__3520107_37;
 saveCont(co, clofun96, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "getBinding(co, packageID, "));
 return;
 } else {
-R[1] = v__3520119_37;
+R[1] = v__3520107_37;
 saveCont(co, clofun96, 9, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3520119_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3520107_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520088_37);
+coraCall0(co, v__3520076_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520088_37);
+coraCall0(co, v__3520076_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520088_37);
+coraCall0(co, v__3520076_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520088_37);
+coraCall0(co, v__3520076_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521499_37= co->res;
+Obj v__3521487_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ").name"));
 return;
 }
 case 2:
 {
-Obj v__3521498_37= co->res;
+Obj v__3521486_37= co->res;
 saveCont(co, clofun96, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521498_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521486_37);
 return;
 }
 case 3:
 {
-Obj v__3521497_37= co->res;
-Obj v__3520119_37 = R[1];
+Obj v__3521485_37= co->res;
+Obj v__3520107_37 = R[1];
 saveCont(co, clofun96, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520119_37, closureRef(R[0], 4));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 50)), v__3520107_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3521502_37= co->res;
+Obj v__3521490_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 5:
 {
-Obj v__3521501_37= co->res;
-Obj v__3520119_37 = R[1];
+Obj v__3521489_37= co->res;
+Obj v__3520107_37 = R[1];
 saveCont(co, clofun96, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520119_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520107_37);
 return;
 }
 case 6:
 {
-Obj v__3521506_37= co->res;
+Obj v__3521494_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "\")"));
 return;
 }
 case 7:
 {
-Obj v__3521505_37= co->res;
+Obj v__3521493_37= co->res;
 saveCont(co, clofun96, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521505_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521493_37);
 return;
 }
 case 8:
 {
-Obj v__3521504_37= co->res;
-Obj v__3520119_37 = R[1];
+Obj v__3521492_37= co->res;
+Obj v__3520107_37 = R[1];
 saveCont(co, clofun96, 7, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3520119_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 41)), v__3520107_37);
 return;
 }
 case 9:
 {
-Obj v__3521500_37= co->res;
-Obj v__3520119_37 = R[1];
-if (True == v__3521500_37) {
-R[1] = v__3520119_37;
+Obj v__3521488_37= co->res;
+Obj v__3520107_37 = R[1];
+if (True == v__3521488_37) {
+R[1] = v__3520107_37;
 saveCont(co, clofun96, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "MAKE_NUMBER("));
 return;
 } else {
-Obj v__3521503_37 = primIsString(v__3520119_37);
-if (True == v__3521503_37) {
-R[1] = v__3520119_37;
+Obj v__3521491_37 = primIsString(v__3520107_37);
+if (True == v__3521491_37) {
+R[1] = v__3520107_37;
 saveCont(co, clofun96, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeCString(co->gc, \""));
 return;
 } else {
-Obj v__3521507_37 = PRIM_EQ(v__3520119_37, Nil);
-if (True == v__3521507_37) {
+Obj v__3521495_37 = PRIM_EQ(v__3520107_37, Nil);
+if (True == v__3521495_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Nil"));
 return;
 } else {
-Obj v__3521508_37 = PRIM_EQ(v__3520119_37, True);
-if (True == v__3521508_37) {
+Obj v__3521496_37 = PRIM_EQ(v__3520107_37, True);
+if (True == v__3521496_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "True"));
 return;
 } else {
-Obj v__3521509_37 = PRIM_EQ(v__3520119_37, False);
-if (True == v__3521509_37) {
+Obj v__3521497_37 = PRIM_EQ(v__3520107_37, False);
+if (True == v__3521497_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "False"));
 return;
@@ -3079,171 +3079,171 @@ static void clofun95(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520089_37 = makeNative(co->gc, 3, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3521451_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521451_37) {
-Obj v__3521452_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521453_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3521452_37);
-if (True == v__3521453_37) {
-Obj v__3521454_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3520077_37 = makeNative(co->gc, 3, clofun94, 0, 6, closureRef(R[0], 4), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521439_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521439_37) {
+Obj v__3521440_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521441_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3521440_37);
+if (True == v__3521441_37) {
+Obj v__3521442_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521443_37 = PRIM_ISCONS(v__3521442_37);
+if (True == v__3521443_37) {
+Obj v__3521444_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521445_37 = PRIM_CAR(v__3521444_37);
+Obj v__3520104_37 = v__3521445_37;
+Obj v__3521446_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521447_37 = PRIM_CDR(v__3521446_37);
+Obj v__3521448_37 = PRIM_ISCONS(v__3521447_37);
+if (True == v__3521448_37) {
+Obj v__3521449_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521450_37 = PRIM_CDR(v__3521449_37);
+Obj v__3521451_37 = PRIM_CAR(v__3521450_37);
+Obj v__3520105_37 = v__3521451_37;
+Obj v__3521452_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521453_37 = PRIM_CDR(v__3521452_37);
+Obj v__3521454_37 = PRIM_CDR(v__3521453_37);
 Obj v__3521455_37 = PRIM_ISCONS(v__3521454_37);
 if (True == v__3521455_37) {
 Obj v__3521456_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521457_37 = PRIM_CAR(v__3521456_37);
-Obj v__3520116_37 = v__3521457_37;
-Obj v__3521458_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521459_37 = PRIM_CDR(v__3521458_37);
-Obj v__3521460_37 = PRIM_ISCONS(v__3521459_37);
-if (True == v__3521460_37) {
-Obj v__3521461_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521457_37 = PRIM_CDR(v__3521456_37);
+Obj v__3521458_37 = PRIM_CDR(v__3521457_37);
+Obj v__3521459_37 = PRIM_CAR(v__3521458_37);
+Obj v__3520106_37 = v__3521459_37;
+Obj v__3521460_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521461_37 = PRIM_CDR(v__3521460_37);
 Obj v__3521462_37 = PRIM_CDR(v__3521461_37);
-Obj v__3521463_37 = PRIM_CAR(v__3521462_37);
-Obj v__3520117_37 = v__3521463_37;
-Obj v__3521464_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521465_37 = PRIM_CDR(v__3521464_37);
-Obj v__3521466_37 = PRIM_CDR(v__3521465_37);
-Obj v__3521467_37 = PRIM_ISCONS(v__3521466_37);
-if (True == v__3521467_37) {
-Obj v__3521468_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521469_37 = PRIM_CDR(v__3521468_37);
-Obj v__3521470_37 = PRIM_CDR(v__3521469_37);
-Obj v__3521471_37 = PRIM_CAR(v__3521470_37);
-Obj v__3520118_37 = v__3521471_37;
-Obj v__3521472_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521473_37 = PRIM_CDR(v__3521472_37);
-Obj v__3521474_37 = PRIM_CDR(v__3521473_37);
-Obj v__3521475_37 = PRIM_CDR(v__3521474_37);
-Obj v__3521476_37 = PRIM_EQ(Nil, v__3521475_37);
-if (True == v__3521476_37) {
-R[1] = v__3520117_37;
-R[2] = v__3520116_37;
-R[3] = v__3520118_37;
+Obj v__3521463_37 = PRIM_CDR(v__3521462_37);
+Obj v__3521464_37 = PRIM_EQ(Nil, v__3521463_37);
+if (True == v__3521464_37) {
+R[1] = v__3520105_37;
+R[2] = v__3520104_37;
+R[3] = v__3520106_37;
 saveCont(co, clofun95, 8, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3520116_37, closureRef(R[0], 5));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3520104_37, closureRef(R[0], 5));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520089_37);
+coraCall0(co, v__3520077_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520089_37);
+coraCall0(co, v__3520077_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520089_37);
+coraCall0(co, v__3520077_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520089_37);
+coraCall0(co, v__3520077_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520089_37);
+coraCall0(co, v__3520077_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520089_37);
+coraCall0(co, v__3520077_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521484_37= co->res;
-Obj v__3520116_37 = R[1];
-Obj v__3520118_37 = R[2];
-Obj v__3521485_37 = makeCons(co->gc, v__3520116_37, closureRef(R[0], 5));
+Obj v__3521472_37= co->res;
+Obj v__3520104_37 = R[1];
+Obj v__3520106_37 = R[2];
+Obj v__3521473_37 = makeCons(co->gc, v__3520104_37, closureRef(R[0], 5));
 co->ctx.sp = R;
-coraCall2(co, v__3521484_37, v__3520118_37, v__3521485_37);
+coraCall2(co, v__3521472_37, v__3520106_37, v__3521473_37);
 return;
 }
 case 2:
 {
-Obj v__3521483_37= co->res;
-Obj v__3520116_37 = R[1];
-Obj v__3520118_37 = R[2];
-R[1] = v__3520116_37;
-R[2] = v__3520118_37;
+Obj v__3521471_37= co->res;
+Obj v__3520104_37 = R[1];
+Obj v__3520106_37 = R[2];
+R[1] = v__3520104_37;
+R[2] = v__3520106_37;
 saveCont(co, clofun95, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521482_37= co->res;
-Obj v__3520116_37 = R[1];
-Obj v__3520118_37 = R[2];
-R[1] = v__3520116_37;
-R[2] = v__3520118_37;
+Obj v__3521470_37= co->res;
+Obj v__3520104_37 = R[1];
+Obj v__3520106_37 = R[2];
+R[1] = v__3520104_37;
+R[2] = v__3520106_37;
 saveCont(co, clofun95, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3521481_37= co->res;
-Obj v__3520117_37 = R[1];
-Obj v__3520116_37 = R[2];
-Obj v__3520118_37 = R[3];
-R[1] = v__3520116_37;
-R[2] = v__3520118_37;
+Obj v__3521469_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520104_37 = R[2];
+Obj v__3520106_37 = R[3];
+R[1] = v__3520104_37;
+R[2] = v__3520106_37;
 saveCont(co, clofun95, 3, R);
-coraCall2(co, v__3521481_37, v__3520117_37, closureRef(R[0], 5));
+coraCall2(co, v__3521469_37, v__3520105_37, closureRef(R[0], 5));
 return;
 }
 case 5:
 {
-Obj v__3521480_37= co->res;
-Obj v__3520117_37 = R[1];
-Obj v__3520116_37 = R[2];
-Obj v__3520118_37 = R[3];
-R[1] = v__3520117_37;
-R[2] = v__3520116_37;
-R[3] = v__3520118_37;
+Obj v__3521468_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520104_37 = R[2];
+Obj v__3520106_37 = R[3];
+R[1] = v__3520105_37;
+R[2] = v__3520104_37;
+R[3] = v__3520106_37;
 saveCont(co, clofun95, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3521479_37= co->res;
-Obj v__3520117_37 = R[1];
-Obj v__3520116_37 = R[2];
-Obj v__3520118_37 = R[3];
-R[1] = v__3520117_37;
-R[2] = v__3520116_37;
-R[3] = v__3520118_37;
+Obj v__3521467_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520104_37 = R[2];
+Obj v__3520106_37 = R[3];
+R[1] = v__3520105_37;
+R[2] = v__3520104_37;
+R[3] = v__3520106_37;
 saveCont(co, clofun95, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = "));
 return;
 }
 case 7:
 {
-Obj v__3521478_37= co->res;
-Obj v__3520117_37 = R[1];
-Obj v__3520116_37 = R[2];
-Obj v__3520118_37 = R[3];
-R[1] = v__3520117_37;
-R[2] = v__3520116_37;
-R[3] = v__3520118_37;
+Obj v__3521466_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520104_37 = R[2];
+Obj v__3520106_37 = R[3];
+R[1] = v__3520105_37;
+R[2] = v__3520104_37;
+R[3] = v__3520106_37;
 saveCont(co, clofun95, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3520116_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 44)), closureRef(R[0], 3), v__3520104_37);
 return;
 }
 case 8:
 {
-Obj v__3521477_37= co->res;
-Obj v__3520117_37 = R[1];
-Obj v__3520116_37 = R[2];
-Obj v__3520118_37 = R[3];
-R[1] = v__3520117_37;
-R[2] = v__3520116_37;
-R[3] = v__3520118_37;
+Obj v__3521465_37= co->res;
+Obj v__3520105_37 = R[1];
+Obj v__3520104_37 = R[2];
+Obj v__3520106_37 = R[3];
+R[1] = v__3520105_37;
+R[2] = v__3520104_37;
+R[3] = v__3520106_37;
 saveCont(co, clofun95, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
@@ -3255,153 +3255,153 @@ static void clofun94(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520090_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521421_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521421_37) {
-Obj v__3521422_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521423_37 = PRIM_ISCONS(v__3521422_37);
-if (True == v__3521423_37) {
-Obj v__3521424_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521425_37 = PRIM_CAR(v__3521424_37);
-Obj v__3521426_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3521425_37);
-if (True == v__3521426_37) {
-Obj v__3521427_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521428_37 = PRIM_CDR(v__3521427_37);
-Obj v__3521429_37 = PRIM_ISCONS(v__3521428_37);
-if (True == v__3521429_37) {
-Obj v__3521430_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521431_37 = PRIM_CDR(v__3521430_37);
-Obj v__3521432_37 = PRIM_CAR(v__3521431_37);
-Obj v__3520114_37 = v__3521432_37;
-Obj v__3521433_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521434_37 = PRIM_CDR(v__3521433_37);
-Obj v__3521435_37 = PRIM_CDR(v__3521434_37);
-Obj v__3521436_37 = PRIM_EQ(Nil, v__3521435_37);
-if (True == v__3521436_37) {
-Obj v__3521437_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3520115_37 = v__3521437_37;
-R[1] = v__3520114_37;
-R[2] = v__3520115_37;
+Obj v__3520078_37 = makeNative(co->gc, 4, clofun93, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 0), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521409_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521409_37) {
+Obj v__3521410_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521411_37 = PRIM_ISCONS(v__3521410_37);
+if (True == v__3521411_37) {
+Obj v__3521412_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521413_37 = PRIM_CAR(v__3521412_37);
+Obj v__3521414_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3521413_37);
+if (True == v__3521414_37) {
+Obj v__3521415_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521416_37 = PRIM_CDR(v__3521415_37);
+Obj v__3521417_37 = PRIM_ISCONS(v__3521416_37);
+if (True == v__3521417_37) {
+Obj v__3521418_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521419_37 = PRIM_CDR(v__3521418_37);
+Obj v__3521420_37 = PRIM_CAR(v__3521419_37);
+Obj v__3520102_37 = v__3521420_37;
+Obj v__3521421_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521422_37 = PRIM_CDR(v__3521421_37);
+Obj v__3521423_37 = PRIM_CDR(v__3521422_37);
+Obj v__3521424_37 = PRIM_EQ(Nil, v__3521423_37);
+if (True == v__3521424_37) {
+Obj v__3521425_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520103_37 = v__3521425_37;
+R[1] = v__3520102_37;
+R[2] = v__3520103_37;
 saveCont(co, clofun94, 10, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520114_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 103)), v__3520102_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520090_37);
+coraCall0(co, v__3520078_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520090_37);
+coraCall0(co, v__3520078_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520090_37);
+coraCall0(co, v__3520078_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520090_37);
+coraCall0(co, v__3520078_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520090_37);
+coraCall0(co, v__3520078_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521442_37= co->res;
+Obj v__3521430_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521441_37= co->res;
-Obj v__3520115_37 = R[1];
+Obj v__3521429_37= co->res;
+Obj v__3520103_37 = R[1];
 saveCont(co, clofun94, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520103_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521445_37= co->res;
+Obj v__3521433_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 4:
 {
-Obj v__3521444_37= co->res;
-Obj v__3520115_37 = R[1];
+Obj v__3521432_37= co->res;
+Obj v__3520103_37 = R[1];
 saveCont(co, clofun94, 3, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520103_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 5:
 {
-Obj v__3521448_37= co->res;
+Obj v__3521436_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 6:
 {
-Obj v__3521447_37= co->res;
-Obj v__3520115_37 = R[1];
+Obj v__3521435_37= co->res;
+Obj v__3520103_37 = R[1];
 saveCont(co, clofun94, 5, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520103_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 7:
 {
-Obj v__3521450_37= co->res;
+Obj v__3521438_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 8:
 {
-Obj v__3521449_37= co->res;
-Obj v__3520115_37 = R[1];
+Obj v__3521437_37= co->res;
+Obj v__3520103_37 = R[1];
 saveCont(co, clofun94, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520115_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520103_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3521439_37= co->res;
-Obj v__3520114_37 = R[1];
-Obj v__3520115_37 = R[2];
-Obj v__3521440_37 = PRIM_EQ(v__3520114_37, getBinding(co, packageID, 122).name);
-if (True == v__3521440_37) {
-R[1] = v__3520115_37;
+Obj v__3521427_37= co->res;
+Obj v__3520102_37 = R[1];
+Obj v__3520103_37 = R[2];
+Obj v__3521428_37 = PRIM_EQ(v__3520102_37, getBinding(co, packageID, 122).name);
+if (True == v__3521428_37) {
+R[1] = v__3520103_37;
 saveCont(co, clofun94, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 } else {
-Obj v__3521443_37 = PRIM_EQ(v__3520114_37, getBinding(co, packageID, 110).name);
-if (True == v__3521443_37) {
-R[1] = v__3520115_37;
+Obj v__3521431_37 = PRIM_EQ(v__3520102_37, getBinding(co, packageID, 110).name);
+if (True == v__3521431_37) {
+R[1] = v__3520103_37;
 saveCont(co, clofun94, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co"));
 return;
 } else {
-Obj v__3521446_37 = PRIM_EQ(v__3520114_37, getBinding(co, packageID, 119).name);
-if (True == v__3521446_37) {
-R[1] = v__3520115_37;
+Obj v__3521434_37 = PRIM_EQ(v__3520102_37, getBinding(co, packageID, 119).name);
+if (True == v__3521434_37) {
+R[1] = v__3520103_37;
 saveCont(co, clofun94, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co->gc, "));
 return;
 } else {
-R[1] = v__3520115_37;
+R[1] = v__3520103_37;
 saveCont(co, clofun94, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "("));
 return;
@@ -3411,13 +3411,13 @@ return;
 }
 case 10:
 {
-Obj v__3521438_37= co->res;
-Obj v__3520114_37 = R[1];
-Obj v__3520115_37 = R[2];
-R[1] = v__3520114_37;
-R[2] = v__3520115_37;
+Obj v__3521426_37= co->res;
+Obj v__3520102_37 = R[1];
+Obj v__3520103_37 = R[2];
+R[1] = v__3520102_37;
+R[2] = v__3520103_37;
 saveCont(co, clofun94, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521438_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), v__3521426_37);
 return;
 }
 }
@@ -3427,165 +3427,165 @@ static void clofun93(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520091_37 = makeNative(co->gc, 5, clofun92, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521386_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521386_37) {
-Obj v__3521387_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521388_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3521387_37);
-if (True == v__3521388_37) {
-Obj v__3521389_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3520079_37 = makeNative(co->gc, 5, clofun92, 0, 6, closureRef(R[0], 3), closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521374_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521374_37) {
+Obj v__3521375_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521376_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3521375_37);
+if (True == v__3521376_37) {
+Obj v__3521377_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521378_37 = PRIM_ISCONS(v__3521377_37);
+if (True == v__3521378_37) {
+Obj v__3521379_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521380_37 = PRIM_CAR(v__3521379_37);
+Obj v__3520099_37 = v__3521380_37;
+Obj v__3521381_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521382_37 = PRIM_CDR(v__3521381_37);
+Obj v__3521383_37 = PRIM_ISCONS(v__3521382_37);
+if (True == v__3521383_37) {
+Obj v__3521384_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521385_37 = PRIM_CDR(v__3521384_37);
+Obj v__3521386_37 = PRIM_CAR(v__3521385_37);
+Obj v__3520100_37 = v__3521386_37;
+Obj v__3521387_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521388_37 = PRIM_CDR(v__3521387_37);
+Obj v__3521389_37 = PRIM_CDR(v__3521388_37);
 Obj v__3521390_37 = PRIM_ISCONS(v__3521389_37);
 if (True == v__3521390_37) {
 Obj v__3521391_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521392_37 = PRIM_CAR(v__3521391_37);
-Obj v__3520111_37 = v__3521392_37;
-Obj v__3521393_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521394_37 = PRIM_CDR(v__3521393_37);
-Obj v__3521395_37 = PRIM_ISCONS(v__3521394_37);
-if (True == v__3521395_37) {
-Obj v__3521396_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521392_37 = PRIM_CDR(v__3521391_37);
+Obj v__3521393_37 = PRIM_CDR(v__3521392_37);
+Obj v__3521394_37 = PRIM_CAR(v__3521393_37);
+Obj v__3520101_37 = v__3521394_37;
+Obj v__3521395_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521396_37 = PRIM_CDR(v__3521395_37);
 Obj v__3521397_37 = PRIM_CDR(v__3521396_37);
-Obj v__3521398_37 = PRIM_CAR(v__3521397_37);
-Obj v__3520112_37 = v__3521398_37;
-Obj v__3521399_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521400_37 = PRIM_CDR(v__3521399_37);
-Obj v__3521401_37 = PRIM_CDR(v__3521400_37);
-Obj v__3521402_37 = PRIM_ISCONS(v__3521401_37);
-if (True == v__3521402_37) {
-Obj v__3521403_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521404_37 = PRIM_CDR(v__3521403_37);
-Obj v__3521405_37 = PRIM_CDR(v__3521404_37);
-Obj v__3521406_37 = PRIM_CAR(v__3521405_37);
-Obj v__3520113_37 = v__3521406_37;
-Obj v__3521407_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521408_37 = PRIM_CDR(v__3521407_37);
-Obj v__3521409_37 = PRIM_CDR(v__3521408_37);
-Obj v__3521410_37 = PRIM_CDR(v__3521409_37);
-Obj v__3521411_37 = PRIM_EQ(Nil, v__3521410_37);
-if (True == v__3521411_37) {
-R[1] = v__3520111_37;
-R[2] = v__3520112_37;
-R[3] = v__3520113_37;
+Obj v__3521398_37 = PRIM_CDR(v__3521397_37);
+Obj v__3521399_37 = PRIM_EQ(Nil, v__3521398_37);
+if (True == v__3521399_37) {
+R[1] = v__3520099_37;
+R[2] = v__3520100_37;
+R[3] = v__3520101_37;
 saveCont(co, clofun93, 9, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "if (True == "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520091_37);
+coraCall0(co, v__3520079_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520091_37);
+coraCall0(co, v__3520079_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520091_37);
+coraCall0(co, v__3520079_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520091_37);
+coraCall0(co, v__3520079_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520091_37);
+coraCall0(co, v__3520079_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520091_37);
+coraCall0(co, v__3520079_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521420_37= co->res;
+Obj v__3521408_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "}\n"));
 return;
 }
 case 2:
 {
-Obj v__3521419_37= co->res;
-Obj v__3520113_37 = R[1];
+Obj v__3521407_37= co->res;
+Obj v__3520101_37 = R[1];
 saveCont(co, clofun93, 1, R);
-coraCall2(co, v__3521419_37, v__3520113_37, closureRef(R[0], 4));
+coraCall2(co, v__3521407_37, v__3520101_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521418_37= co->res;
-Obj v__3520113_37 = R[1];
-R[1] = v__3520113_37;
+Obj v__3521406_37= co->res;
+Obj v__3520101_37 = R[1];
+R[1] = v__3520101_37;
 saveCont(co, clofun93, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3521417_37= co->res;
-Obj v__3520113_37 = R[1];
-R[1] = v__3520113_37;
+Obj v__3521405_37= co->res;
+Obj v__3520101_37 = R[1];
+R[1] = v__3520101_37;
 saveCont(co, clofun93, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "} else {\n"));
 return;
 }
 case 5:
 {
-Obj v__3521416_37= co->res;
-Obj v__3520112_37 = R[1];
-Obj v__3520113_37 = R[2];
-R[1] = v__3520113_37;
+Obj v__3521404_37= co->res;
+Obj v__3520100_37 = R[1];
+Obj v__3520101_37 = R[2];
+R[1] = v__3520101_37;
 saveCont(co, clofun93, 4, R);
-coraCall2(co, v__3521416_37, v__3520112_37, closureRef(R[0], 4));
+coraCall2(co, v__3521404_37, v__3520100_37, closureRef(R[0], 4));
 return;
 }
 case 6:
 {
-Obj v__3521415_37= co->res;
-Obj v__3520112_37 = R[1];
-Obj v__3520113_37 = R[2];
-R[1] = v__3520112_37;
-R[2] = v__3520113_37;
+Obj v__3521403_37= co->res;
+Obj v__3520100_37 = R[1];
+Obj v__3520101_37 = R[2];
+R[1] = v__3520100_37;
+R[2] = v__3520101_37;
 saveCont(co, clofun93, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 7:
 {
-Obj v__3521414_37= co->res;
-Obj v__3520112_37 = R[1];
-Obj v__3520113_37 = R[2];
-R[1] = v__3520112_37;
-R[2] = v__3520113_37;
+Obj v__3521402_37= co->res;
+Obj v__3520100_37 = R[1];
+Obj v__3520101_37 = R[2];
+R[1] = v__3520100_37;
+R[2] = v__3520101_37;
 saveCont(co, clofun93, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ") {\n"));
 return;
 }
 case 8:
 {
-Obj v__3521413_37= co->res;
-Obj v__3520111_37 = R[1];
-Obj v__3520112_37 = R[2];
-Obj v__3520113_37 = R[3];
-R[1] = v__3520112_37;
-R[2] = v__3520113_37;
+Obj v__3521401_37= co->res;
+Obj v__3520099_37 = R[1];
+Obj v__3520100_37 = R[2];
+Obj v__3520101_37 = R[3];
+R[1] = v__3520100_37;
+R[2] = v__3520101_37;
 saveCont(co, clofun93, 7, R);
-coraCall2(co, v__3521413_37, v__3520111_37, closureRef(R[0], 4));
+coraCall2(co, v__3521401_37, v__3520099_37, closureRef(R[0], 4));
 return;
 }
 case 9:
 {
-Obj v__3521412_37= co->res;
-Obj v__3520111_37 = R[1];
-Obj v__3520112_37 = R[2];
-Obj v__3520113_37 = R[3];
-R[1] = v__3520111_37;
-R[2] = v__3520112_37;
-R[3] = v__3520113_37;
+Obj v__3521400_37= co->res;
+Obj v__3520099_37 = R[1];
+Obj v__3520100_37 = R[2];
+Obj v__3520101_37 = R[3];
+R[1] = v__3520099_37;
+R[2] = v__3520100_37;
+R[3] = v__3520101_37;
 saveCont(co, clofun93, 8, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3597,97 +3597,97 @@ static void clofun92(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520092_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
-Obj v__3521348_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521348_37) {
-Obj v__3521349_37 = PRIM_CAR(closureRef(R[0], 1));
-Obj v__3521350_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521349_37);
-if (True == v__3521350_37) {
-Obj v__3521351_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3520080_37 = makeNative(co->gc, 3, clofun91, 0, 6, closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 5), closureRef(R[0], 0), closureRef(R[0], 4));
+Obj v__3521336_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521336_37) {
+Obj v__3521337_37 = PRIM_CAR(closureRef(R[0], 1));
+Obj v__3521338_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521337_37);
+if (True == v__3521338_37) {
+Obj v__3521339_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521340_37 = PRIM_ISCONS(v__3521339_37);
+if (True == v__3521340_37) {
+Obj v__3521341_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521342_37 = PRIM_CAR(v__3521341_37);
+Obj v__3520095_37 = v__3521342_37;
+Obj v__3521343_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521344_37 = PRIM_CDR(v__3521343_37);
+Obj v__3521345_37 = PRIM_ISCONS(v__3521344_37);
+if (True == v__3521345_37) {
+Obj v__3521346_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521347_37 = PRIM_CDR(v__3521346_37);
+Obj v__3521348_37 = PRIM_CAR(v__3521347_37);
+Obj v__3520096_37 = v__3521348_37;
+Obj v__3521349_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521350_37 = PRIM_CDR(v__3521349_37);
+Obj v__3521351_37 = PRIM_CDR(v__3521350_37);
 Obj v__3521352_37 = PRIM_ISCONS(v__3521351_37);
 if (True == v__3521352_37) {
 Obj v__3521353_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521354_37 = PRIM_CAR(v__3521353_37);
-Obj v__3520107_37 = v__3521354_37;
-Obj v__3521355_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521356_37 = PRIM_CDR(v__3521355_37);
-Obj v__3521357_37 = PRIM_ISCONS(v__3521356_37);
-if (True == v__3521357_37) {
-Obj v__3521358_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521354_37 = PRIM_CDR(v__3521353_37);
+Obj v__3521355_37 = PRIM_CDR(v__3521354_37);
+Obj v__3521356_37 = PRIM_CAR(v__3521355_37);
+Obj v__3520097_37 = v__3521356_37;
+Obj v__3521357_37 = PRIM_CDR(closureRef(R[0], 1));
+Obj v__3521358_37 = PRIM_CDR(v__3521357_37);
 Obj v__3521359_37 = PRIM_CDR(v__3521358_37);
-Obj v__3521360_37 = PRIM_CAR(v__3521359_37);
-Obj v__3520108_37 = v__3521360_37;
-Obj v__3521361_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521362_37 = PRIM_CDR(v__3521361_37);
-Obj v__3521363_37 = PRIM_CDR(v__3521362_37);
-Obj v__3521364_37 = PRIM_ISCONS(v__3521363_37);
-if (True == v__3521364_37) {
-Obj v__3521365_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521366_37 = PRIM_CDR(v__3521365_37);
-Obj v__3521367_37 = PRIM_CDR(v__3521366_37);
-Obj v__3521368_37 = PRIM_CAR(v__3521367_37);
-Obj v__3520109_37 = v__3521368_37;
-Obj v__3521369_37 = PRIM_CDR(closureRef(R[0], 1));
-Obj v__3521370_37 = PRIM_CDR(v__3521369_37);
-Obj v__3521371_37 = PRIM_CDR(v__3521370_37);
-Obj v__3521372_37 = PRIM_CDR(v__3521371_37);
-Obj v__3520110_37 = v__3521372_37;
-R[1] = v__3520109_37;
-R[2] = v__3520107_37;
-R[3] = v__3520108_37;
-R[4] = v__3520110_37;
+Obj v__3521360_37 = PRIM_CDR(v__3521359_37);
+Obj v__3520098_37 = v__3521360_37;
+R[1] = v__3520097_37;
+R[2] = v__3520095_37;
+R[3] = v__3520096_37;
+R[4] = v__3520098_37;
 saveCont(co, clofun92, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "makeNative(co->gc, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520092_37);
+coraCall0(co, v__3520080_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520092_37);
+coraCall0(co, v__3520080_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520092_37);
+coraCall0(co, v__3520080_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520092_37);
+coraCall0(co, v__3520080_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520092_37);
+coraCall0(co, v__3520080_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521385_37= co->res;
+Obj v__3521373_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ")"));
 return;
 }
 case 2:
 {
-Obj v__3521384_37= co->res;
-Obj v__3520110_37 = R[1];
+Obj v__3521372_37= co->res;
+Obj v__3520098_37 = R[1];
 saveCont(co, clofun92, 1, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520110_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520098_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 3:
 {
-Obj v__3521382_37= co->res;
-Obj v__3520110_37 = R[1];
-Obj v__3521383_37 = primNot(v__3521382_37);
-if (True == v__3521383_37) {
-R[1] = v__3520110_37;
+Obj v__3521370_37= co->res;
+Obj v__3520098_37 = R[1];
+Obj v__3521371_37 = primNot(v__3521370_37);
+if (True == v__3521371_37) {
+R[1] = v__3520098_37;
 saveCont(co, clofun92, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -3700,98 +3700,98 @@ return;
 }
 case 4:
 {
-Obj v__3521381_37= co->res;
-Obj v__3520110_37 = R[1];
-R[1] = v__3520110_37;
+Obj v__3521369_37= co->res;
+Obj v__3520098_37 = R[1];
+R[1] = v__3520098_37;
 saveCont(co, clofun92, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520110_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520098_37);
 return;
 }
 case 5:
 {
-Obj v__3521380_37= co->res;
-Obj v__3520110_37 = R[1];
-R[1] = v__3520110_37;
+Obj v__3521368_37= co->res;
+Obj v__3520098_37 = R[1];
+R[1] = v__3520098_37;
 saveCont(co, clofun92, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521380_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3521368_37);
 return;
 }
 case 6:
 {
-Obj v__3521379_37= co->res;
-Obj v__3520110_37 = R[1];
-R[1] = v__3520110_37;
+Obj v__3521367_37= co->res;
+Obj v__3520098_37 = R[1];
+R[1] = v__3520098_37;
 saveCont(co, clofun92, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520110_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520098_37);
 return;
 }
 case 7:
 {
-Obj v__3521378_37= co->res;
-Obj v__3520110_37 = R[1];
-R[1] = v__3520110_37;
+Obj v__3521366_37= co->res;
+Obj v__3520098_37 = R[1];
+R[1] = v__3520098_37;
 saveCont(co, clofun92, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 8:
 {
-Obj v__3521377_37= co->res;
-Obj v__3520108_37 = R[1];
-Obj v__3520110_37 = R[2];
-R[1] = v__3520110_37;
+Obj v__3521365_37= co->res;
+Obj v__3520096_37 = R[1];
+Obj v__3520098_37 = R[2];
+R[1] = v__3520098_37;
 saveCont(co, clofun92, 7, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520108_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520096_37);
 return;
 }
 case 9:
 {
-Obj v__3521376_37= co->res;
-Obj v__3520108_37 = R[1];
-Obj v__3520110_37 = R[2];
-R[1] = v__3520108_37;
-R[2] = v__3520110_37;
+Obj v__3521364_37= co->res;
+Obj v__3520096_37 = R[1];
+Obj v__3520098_37 = R[2];
+R[1] = v__3520096_37;
+R[2] = v__3520098_37;
 saveCont(co, clofun92, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 10:
 {
-Obj v__3521375_37= co->res;
-Obj v__3520107_37 = R[1];
-Obj v__3520108_37 = R[2];
-Obj v__3520110_37 = R[3];
-R[1] = v__3520108_37;
-R[2] = v__3520110_37;
+Obj v__3521363_37= co->res;
+Obj v__3520095_37 = R[1];
+Obj v__3520096_37 = R[2];
+Obj v__3520098_37 = R[3];
+R[1] = v__3520096_37;
+R[2] = v__3520098_37;
 saveCont(co, clofun92, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3520107_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), v__3520095_37);
 return;
 }
 case 11:
 {
-Obj v__3521374_37= co->res;
-Obj v__3520107_37 = R[1];
-Obj v__3520108_37 = R[2];
-Obj v__3520110_37 = R[3];
-R[1] = v__3520107_37;
-R[2] = v__3520108_37;
-R[3] = v__3520110_37;
+Obj v__3521362_37= co->res;
+Obj v__3520095_37 = R[1];
+Obj v__3520096_37 = R[2];
+Obj v__3520098_37 = R[3];
+R[1] = v__3520095_37;
+R[2] = v__3520096_37;
+R[3] = v__3520098_37;
 saveCont(co, clofun92, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 12:
 {
-Obj v__3521373_37= co->res;
-Obj v__3520109_37 = R[1];
-Obj v__3520107_37 = R[2];
-Obj v__3520108_37 = R[3];
-Obj v__3520110_37 = R[4];
-R[1] = v__3520107_37;
-R[2] = v__3520108_37;
-R[3] = v__3520110_37;
+Obj v__3521361_37= co->res;
+Obj v__3520097_37 = R[1];
+Obj v__3520095_37 = R[2];
+Obj v__3520096_37 = R[3];
+Obj v__3520098_37 = R[4];
+R[1] = v__3520095_37;
+R[2] = v__3520096_37;
+R[3] = v__3520098_37;
 saveCont(co, clofun92, 11, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520109_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520097_37);
 return;
 }
 }
@@ -3801,96 +3801,96 @@ static void clofun91(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520093_37 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
-Obj v__3521327_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521327_37) {
-Obj v__3521328_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521329_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3521328_37);
-if (True == v__3521329_37) {
-Obj v__3521330_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521331_37 = PRIM_ISCONS(v__3521330_37);
-if (True == v__3521331_37) {
-Obj v__3521332_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521333_37 = PRIM_CAR(v__3521332_37);
-Obj v__3520105_37 = v__3521333_37;
-Obj v__3521334_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521335_37 = PRIM_CDR(v__3521334_37);
-Obj v__3521336_37 = PRIM_ISCONS(v__3521335_37);
-if (True == v__3521336_37) {
-Obj v__3521337_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521338_37 = PRIM_CDR(v__3521337_37);
-Obj v__3521339_37 = PRIM_CAR(v__3521338_37);
-Obj v__3520106_37 = v__3521339_37;
-Obj v__3521340_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521341_37 = PRIM_CDR(v__3521340_37);
-Obj v__3521342_37 = PRIM_CDR(v__3521341_37);
-Obj v__3521343_37 = PRIM_EQ(Nil, v__3521342_37);
-if (True == v__3521343_37) {
-R[1] = v__3520105_37;
-R[2] = v__3520106_37;
+Obj v__3520081_37 = makeNative(co->gc, 2, clofun90, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), closureRef(R[0], 3));
+Obj v__3521315_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521315_37) {
+Obj v__3521316_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521317_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3521316_37);
+if (True == v__3521317_37) {
+Obj v__3521318_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521319_37 = PRIM_ISCONS(v__3521318_37);
+if (True == v__3521319_37) {
+Obj v__3521320_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521321_37 = PRIM_CAR(v__3521320_37);
+Obj v__3520093_37 = v__3521321_37;
+Obj v__3521322_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521323_37 = PRIM_CDR(v__3521322_37);
+Obj v__3521324_37 = PRIM_ISCONS(v__3521323_37);
+if (True == v__3521324_37) {
+Obj v__3521325_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521326_37 = PRIM_CDR(v__3521325_37);
+Obj v__3521327_37 = PRIM_CAR(v__3521326_37);
+Obj v__3520094_37 = v__3521327_37;
+Obj v__3521328_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521329_37 = PRIM_CDR(v__3521328_37);
+Obj v__3521330_37 = PRIM_CDR(v__3521329_37);
+Obj v__3521331_37 = PRIM_EQ(Nil, v__3521330_37);
+if (True == v__3521331_37) {
+R[1] = v__3520093_37;
+R[2] = v__3520094_37;
 saveCont(co, clofun91, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520093_37);
+coraCall0(co, v__3520081_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520093_37);
+coraCall0(co, v__3520081_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520093_37);
+coraCall0(co, v__3520081_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520093_37);
+coraCall0(co, v__3520081_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520093_37);
+coraCall0(co, v__3520081_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521347_37= co->res;
-Obj v__3520106_37 = R[1];
+Obj v__3521335_37= co->res;
+Obj v__3520094_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, v__3521347_37, v__3520106_37, closureRef(R[0], 5));
+coraCall2(co, v__3521335_37, v__3520094_37, closureRef(R[0], 5));
 return;
 }
 case 2:
 {
-Obj v__3521346_37= co->res;
-Obj v__3520106_37 = R[1];
-R[1] = v__3520106_37;
+Obj v__3521334_37= co->res;
+Obj v__3520094_37 = R[1];
+R[1] = v__3520094_37;
 saveCont(co, clofun91, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521345_37= co->res;
-Obj v__3520106_37 = R[1];
-R[1] = v__3520106_37;
+Obj v__3521333_37= co->res;
+Obj v__3520094_37 = R[1];
+R[1] = v__3520094_37;
 saveCont(co, clofun91, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 4:
 {
-Obj v__3521344_37= co->res;
-Obj v__3520105_37 = R[1];
-Obj v__3520106_37 = R[2];
-R[1] = v__3520106_37;
+Obj v__3521332_37= co->res;
+Obj v__3520093_37 = R[1];
+Obj v__3520094_37 = R[2];
+R[1] = v__3520094_37;
 saveCont(co, clofun91, 3, R);
-coraCall2(co, v__3521344_37, v__3520105_37, closureRef(R[0], 5));
+coraCall2(co, v__3521332_37, v__3520093_37, closureRef(R[0], 5));
 return;
 }
 }
@@ -3900,74 +3900,74 @@ static void clofun90(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520094_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521313_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521313_37) {
-Obj v__3521314_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521315_37 = PRIM_EQ(getBinding(co, packageID, 71).name, v__3521314_37);
-if (True == v__3521315_37) {
-Obj v__3521316_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521317_37 = PRIM_ISCONS(v__3521316_37);
-if (True == v__3521317_37) {
-Obj v__3521318_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521319_37 = PRIM_CAR(v__3521318_37);
-Obj v__3520104_37 = v__3521319_37;
-Obj v__3521320_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521321_37 = PRIM_CDR(v__3521320_37);
-Obj v__3521322_37 = PRIM_EQ(Nil, v__3521321_37);
-if (True == v__3521322_37) {
-R[1] = v__3520104_37;
+Obj v__3520082_37 = makeNative(co->gc, 2, clofun89, 0, 6, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521301_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521301_37) {
+Obj v__3521302_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521303_37 = PRIM_EQ(getBinding(co, packageID, 71).name, v__3521302_37);
+if (True == v__3521303_37) {
+Obj v__3521304_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521305_37 = PRIM_ISCONS(v__3521304_37);
+if (True == v__3521305_37) {
+Obj v__3521306_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521307_37 = PRIM_CAR(v__3521306_37);
+Obj v__3520092_37 = v__3521307_37;
+Obj v__3521308_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521309_37 = PRIM_CDR(v__3521308_37);
+Obj v__3521310_37 = PRIM_EQ(Nil, v__3521309_37);
+if (True == v__3521310_37) {
+R[1] = v__3520092_37;
 saveCont(co, clofun90, 4, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraReturn(co, "));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520094_37);
+coraCall0(co, v__3520082_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520094_37);
+coraCall0(co, v__3520082_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520094_37);
+coraCall0(co, v__3520082_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520094_37);
+coraCall0(co, v__3520082_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521326_37= co->res;
+Obj v__3521314_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521325_37= co->res;
+Obj v__3521313_37= co->res;
 saveCont(co, clofun90, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 3:
 {
-Obj v__3521324_37= co->res;
-Obj v__3520104_37 = R[1];
+Obj v__3521312_37= co->res;
+Obj v__3520092_37 = R[1];
 saveCont(co, clofun90, 2, R);
-coraCall2(co, v__3521324_37, v__3520104_37, closureRef(R[0], 4));
+coraCall2(co, v__3521312_37, v__3520092_37, closureRef(R[0], 4));
 return;
 }
 case 4:
 {
-Obj v__3521323_37= co->res;
-Obj v__3520104_37 = R[1];
-R[1] = v__3520104_37;
+Obj v__3521311_37= co->res;
+Obj v__3520092_37 = R[1];
+R[1] = v__3520092_37;
 saveCont(co, clofun90, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -3979,67 +3979,67 @@ static void clofun89(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520095_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521300_37 = PRIM_ISCONS(closureRef(R[0], 2));
-if (True == v__3521300_37) {
-Obj v__3521301_37 = PRIM_CAR(closureRef(R[0], 2));
-Obj v__3521302_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3521301_37);
-if (True == v__3521302_37) {
-Obj v__3521303_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521304_37 = PRIM_ISCONS(v__3521303_37);
-if (True == v__3521304_37) {
-Obj v__3521305_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521306_37 = PRIM_CAR(v__3521305_37);
-Obj v__3520103_37 = v__3521306_37;
-Obj v__3521307_37 = PRIM_CDR(closureRef(R[0], 2));
-Obj v__3521308_37 = PRIM_CDR(v__3521307_37);
-Obj v__3521309_37 = PRIM_EQ(Nil, v__3521308_37);
-if (True == v__3521309_37) {
-R[1] = v__3520103_37;
+Obj v__3520083_37 = makeNative(co->gc, 3, clofun88, 0, 6, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521288_37 = PRIM_ISCONS(closureRef(R[0], 2));
+if (True == v__3521288_37) {
+Obj v__3521289_37 = PRIM_CAR(closureRef(R[0], 2));
+Obj v__3521290_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3521289_37);
+if (True == v__3521290_37) {
+Obj v__3521291_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521292_37 = PRIM_ISCONS(v__3521291_37);
+if (True == v__3521292_37) {
+Obj v__3521293_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521294_37 = PRIM_CAR(v__3521293_37);
+Obj v__3520091_37 = v__3521294_37;
+Obj v__3521295_37 = PRIM_CDR(closureRef(R[0], 2));
+Obj v__3521296_37 = PRIM_CDR(v__3521295_37);
+Obj v__3521297_37 = PRIM_EQ(Nil, v__3521296_37);
+if (True == v__3521297_37) {
+R[1] = v__3520091_37;
 saveCont(co, clofun89, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "co->ctx.sp = R;\n"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520095_37);
+coraCall0(co, v__3520083_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520095_37);
+coraCall0(co, v__3520083_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520095_37);
+coraCall0(co, v__3520083_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520095_37);
+coraCall0(co, v__3520083_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521312_37= co->res;
+Obj v__3521300_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521311_37= co->res;
-Obj v__3520103_37 = R[1];
+Obj v__3521299_37= co->res;
+Obj v__3520091_37 = R[1];
 saveCont(co, clofun89, 1, R);
-coraCall2(co, v__3521311_37, v__3520103_37, closureRef(R[0], 4));
+coraCall2(co, v__3521299_37, v__3520091_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521310_37= co->res;
-Obj v__3520103_37 = R[1];
-R[1] = v__3520103_37;
+Obj v__3521298_37= co->res;
+Obj v__3520091_37 = R[1];
+R[1] = v__3520091_37;
 saveCont(co, clofun89, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
@@ -4051,129 +4051,129 @@ static void clofun88(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520096_37 = makeNative(co->gc, 4, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
-Obj v__3521276_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521276_37) {
-Obj v__3521277_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521278_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521277_37);
-if (True == v__3521278_37) {
-Obj v__3521279_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521280_37 = PRIM_ISCONS(v__3521279_37);
-if (True == v__3521280_37) {
-Obj v__3521281_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521282_37 = PRIM_CAR(v__3521281_37);
-Obj v__3520100_37 = v__3521282_37;
-Obj v__3521283_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521284_37 = PRIM_CDR(v__3521283_37);
-Obj v__3521285_37 = PRIM_ISCONS(v__3521284_37);
-if (True == v__3521285_37) {
-Obj v__3521286_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521287_37 = PRIM_CDR(v__3521286_37);
-Obj v__3521288_37 = PRIM_CAR(v__3521287_37);
-Obj v__3520101_37 = v__3521288_37;
-Obj v__3521289_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521290_37 = PRIM_CDR(v__3521289_37);
-Obj v__3521291_37 = PRIM_CDR(v__3521290_37);
-Obj v__3520102_37 = v__3521291_37;
-R[1] = v__3520101_37;
-R[2] = v__3520100_37;
+Obj v__3520084_37 = makeNative(co->gc, 4, clofun87, 0, 6, closureRef(R[0], 0), closureRef(R[0], 3), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5));
+Obj v__3521264_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521264_37) {
+Obj v__3521265_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521266_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521265_37);
+if (True == v__3521266_37) {
+Obj v__3521267_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521268_37 = PRIM_ISCONS(v__3521267_37);
+if (True == v__3521268_37) {
+Obj v__3521269_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521270_37 = PRIM_CAR(v__3521269_37);
+Obj v__3520088_37 = v__3521270_37;
+Obj v__3521271_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521272_37 = PRIM_CDR(v__3521271_37);
+Obj v__3521273_37 = PRIM_ISCONS(v__3521272_37);
+if (True == v__3521273_37) {
+Obj v__3521274_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521275_37 = PRIM_CDR(v__3521274_37);
+Obj v__3521276_37 = PRIM_CAR(v__3521275_37);
+Obj v__3520089_37 = v__3521276_37;
+Obj v__3521277_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521278_37 = PRIM_CDR(v__3521277_37);
+Obj v__3521279_37 = PRIM_CDR(v__3521278_37);
+Obj v__3520090_37 = v__3521279_37;
+R[1] = v__3520089_37;
+R[2] = v__3520088_37;
 saveCont(co, clofun88, 8, R);
-Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3520102_37};
+Obj __args[5] = {closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 4), closureRef(R[0], 5), v__3520090_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 49)), 5, __args);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520096_37);
+coraCall0(co, v__3520084_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520096_37);
+coraCall0(co, v__3520084_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520096_37);
+coraCall0(co, v__3520084_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520096_37);
+coraCall0(co, v__3520084_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521299_37= co->res;
+Obj v__3521287_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "return;\n"));
 return;
 }
 case 2:
 {
-Obj v__3521298_37= co->res;
-Obj v__3520100_37 = R[1];
+Obj v__3521286_37= co->res;
+Obj v__3520088_37 = R[1];
 saveCont(co, clofun88, 1, R);
-coraCall2(co, v__3521298_37, v__3520100_37, closureRef(R[0], 4));
+coraCall2(co, v__3521286_37, v__3520088_37, closureRef(R[0], 4));
 return;
 }
 case 3:
 {
-Obj v__3521297_37= co->res;
-Obj v__3520100_37 = R[1];
-R[1] = v__3520100_37;
+Obj v__3521285_37= co->res;
+Obj v__3520088_37 = R[1];
+R[1] = v__3520088_37;
 saveCont(co, clofun88, 2, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 3));
 return;
 }
 case 4:
 {
-Obj v__3521296_37= co->res;
-Obj v__3520100_37 = R[1];
-R[1] = v__3520100_37;
+Obj v__3521284_37= co->res;
+Obj v__3520088_37 = R[1];
+R[1] = v__3520088_37;
 saveCont(co, clofun88, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", R);\n"));
 return;
 }
 case 5:
 {
-Obj v__3521295_37= co->res;
-Obj v__3520101_37 = R[1];
-Obj v__3520100_37 = R[2];
-R[1] = v__3520100_37;
+Obj v__3521283_37= co->res;
+Obj v__3520089_37 = R[1];
+Obj v__3520088_37 = R[2];
+R[1] = v__3520088_37;
 saveCont(co, clofun88, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520101_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520089_37);
 return;
 }
 case 6:
 {
-Obj v__3521294_37= co->res;
-Obj v__3520101_37 = R[1];
-Obj v__3520100_37 = R[2];
-R[1] = v__3520101_37;
-R[2] = v__3520100_37;
+Obj v__3521282_37= co->res;
+Obj v__3520089_37 = R[1];
+Obj v__3520088_37 = R[2];
+R[1] = v__3520089_37;
+R[2] = v__3520088_37;
 saveCont(co, clofun88, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 7:
 {
-Obj v__3521293_37= co->res;
-Obj v__3520101_37 = R[1];
-Obj v__3520100_37 = R[2];
-R[1] = v__3520101_37;
-R[2] = v__3520100_37;
+Obj v__3521281_37= co->res;
+Obj v__3520089_37 = R[1];
+Obj v__3520088_37 = R[2];
+R[1] = v__3520089_37;
+R[2] = v__3520088_37;
 saveCont(co, clofun88, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 42)), closureRef(R[0], 5), closureRef(R[0], 2));
 return;
 }
 case 8:
 {
-Obj v__3521292_37= co->res;
-Obj v__3520101_37 = R[1];
-Obj v__3520100_37 = R[2];
-R[1] = v__3520101_37;
-R[2] = v__3520100_37;
+Obj v__3521280_37= co->res;
+Obj v__3520089_37 = R[1];
+Obj v__3520088_37 = R[2];
+R[1] = v__3520089_37;
+R[2] = v__3520088_37;
 saveCont(co, clofun88, 7, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "saveCont(co, "));
 return;
@@ -4185,16 +4185,16 @@ static void clofun87(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521253_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521253_37) {
-Obj v__3521254_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520097_37 = v__3521254_37;
-Obj v__3521255_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520098_37 = v__3521255_37;
-R[1] = v__3520097_37;
-R[2] = v__3520098_37;
+Obj v__3521241_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521241_37) {
+Obj v__3521242_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520085_37 = v__3521242_37;
+Obj v__3521243_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520086_37 = v__3521243_37;
+R[1] = v__3520085_37;
+R[2] = v__3520086_37;
 saveCont(co, clofun87, 18, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520098_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520086_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -4204,134 +4204,134 @@ return;
 }
 case 1:
 {
-Obj v__3521267_37= co->res;
+Obj v__3521255_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", __args);\n"));
 return;
 }
 case 2:
 {
-Obj v__3521266_37= co->res;
-Obj v__3520099_37 = R[1];
+Obj v__3521254_37= co->res;
+Obj v__3520087_37 = R[1];
 saveCont(co, clofun87, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520099_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520087_37);
 return;
 }
 case 3:
 {
-Obj v__3521265_37= co->res;
-Obj v__3520099_37 = R[1];
-R[1] = v__3520099_37;
+Obj v__3521253_37= co->res;
+Obj v__3520087_37 = R[1];
+R[1] = v__3520087_37;
 saveCont(co, clofun87, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
 }
 case 4:
 {
-Obj v__3521264_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-R[1] = v__3520099_37;
+Obj v__3521252_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+R[1] = v__3520087_37;
 saveCont(co, clofun87, 3, R);
-coraCall2(co, v__3521264_37, v__3520097_37, closureRef(R[0], 4));
+coraCall2(co, v__3521252_37, v__3520085_37, closureRef(R[0], 4));
 return;
 }
 case 5:
 {
-Obj v__3521263_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
+Obj v__3521251_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
 saveCont(co, clofun87, 4, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 6:
 {
-Obj v__3521262_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
+Obj v__3521250_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
 saveCont(co, clofun87, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall(co, "));
 return;
 }
 case 7:
 {
-Obj v__3521261_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
+Obj v__3521249_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
 saveCont(co, clofun87, 6, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "};\n"));
 return;
 }
 case 8:
 {
-Obj v__3521260_37= co->res;
-Obj v__3520098_37 = R[1];
-Obj v__3520097_37 = R[2];
-Obj v__3520099_37 = R[3];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
+Obj v__3521248_37= co->res;
+Obj v__3520086_37 = R[1];
+Obj v__3520085_37 = R[2];
+Obj v__3520087_37 = R[3];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
 saveCont(co, clofun87, 7, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520098_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520086_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 9:
 {
-Obj v__3521259_37= co->res;
-Obj v__3520098_37 = R[1];
-Obj v__3520097_37 = R[2];
-Obj v__3520099_37 = R[3];
-R[1] = v__3520098_37;
-R[2] = v__3520097_37;
-R[3] = v__3520099_37;
+Obj v__3521247_37= co->res;
+Obj v__3520086_37 = R[1];
+Obj v__3520085_37 = R[2];
+Obj v__3520087_37 = R[3];
+R[1] = v__3520086_37;
+R[2] = v__3520085_37;
+R[3] = v__3520087_37;
 saveCont(co, clofun87, 8, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "] = {"));
 return;
 }
 case 10:
 {
-Obj v__3521258_37= co->res;
-Obj v__3520098_37 = R[1];
-Obj v__3520097_37 = R[2];
-Obj v__3520099_37 = R[3];
-R[1] = v__3520098_37;
-R[2] = v__3520097_37;
-R[3] = v__3520099_37;
+Obj v__3521246_37= co->res;
+Obj v__3520086_37 = R[1];
+Obj v__3520085_37 = R[2];
+Obj v__3520087_37 = R[3];
+R[1] = v__3520086_37;
+R[2] = v__3520085_37;
+R[3] = v__3520087_37;
 saveCont(co, clofun87, 9, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520099_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520087_37);
 return;
 }
 case 11:
 {
-Obj v__3521275_37= co->res;
+Obj v__3521263_37= co->res;
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ");\n"));
 return;
 }
 case 12:
 {
-Obj v__3521274_37= co->res;
-Obj v__3520098_37 = R[1];
+Obj v__3521262_37= co->res;
+Obj v__3520086_37 = R[1];
 saveCont(co, clofun87, 11, R);
-Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520098_37};
+Obj __args[5] = {closureRef(R[0], 2), closureRef(R[0], 3), closureRef(R[0], 4), closureRef(R[0], 5), v__3520086_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 43)), 5, __args);
 return;
 }
 case 13:
 {
-Obj v__3521272_37= co->res;
-Obj v__3520099_37 = R[1];
-Obj v__3520098_37 = R[2];
-Obj v__3521273_37 = PRIM_GT(v__3520099_37, MAKE_NUMBER(0));
-if (True == v__3521273_37) {
-R[1] = v__3520098_37;
+Obj v__3521260_37= co->res;
+Obj v__3520087_37 = R[1];
+Obj v__3520086_37 = R[2];
+Obj v__3521261_37 = PRIM_GT(v__3520087_37, MAKE_NUMBER(0));
+if (True == v__3521261_37) {
+R[1] = v__3520086_37;
 saveCont(co, clofun87, 12, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, ", "));
 return;
@@ -4344,73 +4344,73 @@ return;
 }
 case 14:
 {
-Obj v__3521271_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-Obj v__3520098_37 = R[3];
-R[1] = v__3520099_37;
-R[2] = v__3520098_37;
+Obj v__3521259_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+Obj v__3520086_37 = R[3];
+R[1] = v__3520087_37;
+R[2] = v__3520086_37;
 saveCont(co, clofun87, 13, R);
-coraCall2(co, v__3521271_37, v__3520097_37, closureRef(R[0], 4));
+coraCall2(co, v__3521259_37, v__3520085_37, closureRef(R[0], 4));
 return;
 }
 case 15:
 {
-Obj v__3521270_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-Obj v__3520098_37 = R[3];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
-R[3] = v__3520098_37;
+Obj v__3521258_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+Obj v__3520086_37 = R[3];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
+R[3] = v__3520086_37;
 saveCont(co, clofun87, 14, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), closureRef(R[0], 1));
 return;
 }
 case 16:
 {
-Obj v__3521269_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-Obj v__3520098_37 = R[3];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
-R[3] = v__3520098_37;
+Obj v__3521257_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+Obj v__3520086_37 = R[3];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
+R[3] = v__3520086_37;
 saveCont(co, clofun87, 15, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "(co, "));
 return;
 }
 case 17:
 {
-Obj v__3521268_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520099_37 = R[2];
-Obj v__3520098_37 = R[3];
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
-R[3] = v__3520098_37;
+Obj v__3521256_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520087_37 = R[2];
+Obj v__3520086_37 = R[3];
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
+R[3] = v__3520086_37;
 saveCont(co, clofun87, 16, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520099_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 5), v__3520087_37);
 return;
 }
 case 18:
 {
-Obj v__3521256_37= co->res;
-Obj v__3520097_37 = R[1];
-Obj v__3520098_37 = R[2];
-Obj v__3520099_37 = v__3521256_37;
-Obj v__3521257_37 = PRIM_GT(v__3520099_37, MAKE_NUMBER(4));
-if (True == v__3521257_37) {
-R[1] = v__3520098_37;
-R[2] = v__3520097_37;
-R[3] = v__3520099_37;
+Obj v__3521244_37= co->res;
+Obj v__3520085_37 = R[1];
+Obj v__3520086_37 = R[2];
+Obj v__3520087_37 = v__3521244_37;
+Obj v__3521245_37 = PRIM_GT(v__3520087_37, MAKE_NUMBER(4));
+if (True == v__3521245_37) {
+R[1] = v__3520086_37;
+R[2] = v__3520085_37;
+R[3] = v__3520087_37;
 saveCont(co, clofun87, 10, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "Obj __args["));
 return;
 } else {
-R[1] = v__3520097_37;
-R[2] = v__3520099_37;
-R[3] = v__3520098_37;
+R[1] = v__3520085_37;
+R[2] = v__3520087_37;
+R[3] = v__3520086_37;
 saveCont(co, clofun87, 17, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 5), makeCString(co->gc, "coraCall"));
 return;
@@ -4423,13 +4423,13 @@ static void clofun86(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519723_37 = R[1];
-Obj v__3519724_37 = R[2];
-Obj v__3519725_37 = R[3];
-Obj v__3519726_37 = R[4];
-Obj v__3519727_37 = R[5];
+Obj v__3519711_37 = R[1];
+Obj v__3519712_37 = R[2];
+Obj v__3519713_37 = R[3];
+Obj v__3519714_37 = R[4];
+Obj v__3519715_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun85, 2, 4, v__3519723_37, v__3519724_37, v__3519725_37, v__3519726_37), MAKE_NUMBER(1), v__3519727_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun85, 2, 4, v__3519711_37, v__3519712_37, v__3519713_37, v__3519714_37), MAKE_NUMBER(1), v__3519715_37);
 return;
 }
 }
@@ -4439,57 +4439,57 @@ static void clofun85(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519728_37 = R[1];
-Obj v__3519729_37 = R[2];
-R[1] = v__3519729_37;
-R[2] = v__3519728_37;
+Obj v__3519716_37 = R[1];
+Obj v__3519717_37 = R[2];
+R[1] = v__3519717_37;
+R[2] = v__3519716_37;
 saveCont(co, clofun85, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "Obj "));
 return;
 }
 case 1:
 {
-Obj v__3521248_37= co->res;
-Obj v__3519728_37 = R[1];
-Obj v__3521249_37 = PRIM_ADD(v__3519728_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521249_37);
+Obj v__3521236_37= co->res;
+Obj v__3519716_37 = R[1];
+Obj v__3521237_37 = PRIM_ADD(v__3519716_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521237_37);
 return;
 }
 case 2:
 {
-Obj v__3521247_37= co->res;
-Obj v__3519728_37 = R[1];
-R[1] = v__3519728_37;
+Obj v__3521235_37= co->res;
+Obj v__3519716_37 = R[1];
+R[1] = v__3519716_37;
 saveCont(co, clofun85, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "];\n"));
 return;
 }
 case 3:
 {
-Obj v__3521246_37= co->res;
-Obj v__3519728_37 = R[1];
-R[1] = v__3519728_37;
+Obj v__3521234_37= co->res;
+Obj v__3519716_37 = R[1];
+R[1] = v__3519716_37;
 saveCont(co, clofun85, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519728_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519716_37);
 return;
 }
 case 4:
 {
-Obj v__3521245_37= co->res;
-Obj v__3519728_37 = R[1];
-R[1] = v__3519728_37;
+Obj v__3521233_37= co->res;
+Obj v__3519716_37 = R[1];
+R[1] = v__3519716_37;
 saveCont(co, clofun85, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, " = R["));
 return;
 }
 case 5:
 {
-Obj v__3521244_37= co->res;
-Obj v__3519729_37 = R[1];
-Obj v__3519728_37 = R[2];
-R[1] = v__3519728_37;
+Obj v__3521232_37= co->res;
+Obj v__3519717_37 = R[1];
+Obj v__3519716_37 = R[2];
+R[1] = v__3519716_37;
 saveCont(co, clofun85, 4, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519729_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519717_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
@@ -4500,13 +4500,13 @@ static void clofun84(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519716_37 = R[1];
-Obj v__3519717_37 = R[2];
-Obj v__3519718_37 = R[3];
-Obj v__3519719_37 = R[4];
-Obj v__3519720_37 = R[5];
+Obj v__3519704_37 = R[1];
+Obj v__3519705_37 = R[2];
+Obj v__3519706_37 = R[3];
+Obj v__3519707_37 = R[4];
+Obj v__3519708_37 = R[5];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun83, 2, 4, v__3519716_37, v__3519717_37, v__3519718_37, v__3519719_37), MAKE_NUMBER(1), v__3519720_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun83, 2, 4, v__3519704_37, v__3519705_37, v__3519706_37, v__3519707_37), MAKE_NUMBER(1), v__3519708_37);
 return;
 }
 }
@@ -4516,62 +4516,62 @@ static void clofun83(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519721_37 = R[1];
-Obj v__3519722_37 = R[2];
-R[1] = v__3519722_37;
-R[2] = v__3519721_37;
+Obj v__3519709_37 = R[1];
+Obj v__3519710_37 = R[2];
+R[1] = v__3519710_37;
+R[2] = v__3519709_37;
 saveCont(co, clofun83, 5, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "R["));
 return;
 }
 case 1:
 {
-Obj v__3521241_37= co->res;
-Obj v__3519721_37 = R[1];
-Obj v__3521242_37 = PRIM_ADD(v__3519721_37, MAKE_NUMBER(1));
-coraReturn(co, v__3521242_37);
+Obj v__3521229_37= co->res;
+Obj v__3519709_37 = R[1];
+Obj v__3521230_37 = PRIM_ADD(v__3519709_37, MAKE_NUMBER(1));
+coraReturn(co, v__3521230_37);
 return;
 }
 case 2:
 {
-Obj v__3521240_37= co->res;
-Obj v__3519721_37 = R[1];
-R[1] = v__3519721_37;
+Obj v__3521228_37= co->res;
+Obj v__3519709_37 = R[1];
+R[1] = v__3519709_37;
 saveCont(co, clofun83, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, ";\n"));
 return;
 }
 case 3:
 {
-Obj v__3521239_37= co->res;
-Obj v__3519722_37 = R[1];
-Obj v__3519721_37 = R[2];
-R[1] = v__3519721_37;
+Obj v__3521227_37= co->res;
+Obj v__3519710_37 = R[1];
+Obj v__3519709_37 = R[2];
+R[1] = v__3519709_37;
 saveCont(co, clofun83, 2, R);
-Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519722_37};
+Obj __args[5] = {closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2), closureRef(R[0], 3), v__3519710_37};
 coraCall(co, globalRef(co, getBinding(co, packageID, 46)), 5, __args);
 return;
 }
 case 4:
 {
-Obj v__3521238_37= co->res;
-Obj v__3519722_37 = R[1];
-Obj v__3519721_37 = R[2];
-R[1] = v__3519722_37;
-R[2] = v__3519721_37;
+Obj v__3521226_37= co->res;
+Obj v__3519710_37 = R[1];
+Obj v__3519709_37 = R[2];
+R[1] = v__3519710_37;
+R[2] = v__3519709_37;
 saveCont(co, clofun83, 3, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 48)), closureRef(R[0], 3), makeCString(co->gc, "] = "));
 return;
 }
 case 5:
 {
-Obj v__3521237_37= co->res;
-Obj v__3519722_37 = R[1];
-Obj v__3519721_37 = R[2];
-R[1] = v__3519722_37;
-R[2] = v__3519721_37;
+Obj v__3521225_37= co->res;
+Obj v__3519710_37 = R[1];
+Obj v__3519709_37 = R[2];
+R[1] = v__3519710_37;
+R[2] = v__3519709_37;
 saveCont(co, clofun83, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519721_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 47)), closureRef(R[0], 3), v__3519709_37);
 return;
 }
 }
@@ -4581,10 +4581,10 @@ static void clofun82(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519714_37 = R[1];
-Obj v__3519715_37 = R[2];
+Obj v__3519702_37 = R[1];
+Obj v__3519703_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v__3519714_37, v__3519715_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), MAKE_NUMBER(0), v__3519702_37, v__3519703_37);
 return;
 }
 }
@@ -4594,36 +4594,36 @@ static void clofun81(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519711_37 = R[1];
-Obj v__3519712_37 = R[2];
-Obj v__3519713_37 = R[3];
-R[1] = v__3519711_37;
-R[2] = v__3519713_37;
-R[3] = v__3519712_37;
+Obj v__3519699_37 = R[1];
+Obj v__3519700_37 = R[2];
+Obj v__3519701_37 = R[3];
+R[1] = v__3519699_37;
+R[2] = v__3519701_37;
+R[3] = v__3519700_37;
 saveCont(co, clofun81, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519713_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519701_37);
 return;
 }
 case 1:
 {
-Obj v__3521230_37= co->res;
-Obj v__3519711_37 = R[1];
-Obj v__3519713_37 = R[2];
-Obj v__3519712_37 = R[3];
-if (True == v__3521230_37) {
+Obj v__3521218_37= co->res;
+Obj v__3519699_37 = R[1];
+Obj v__3519701_37 = R[2];
+Obj v__3519700_37 = R[3];
+if (True == v__3521218_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3521231_37 = PRIM_CAR(v__3519713_37);
-Obj v__3521232_37 = PRIM_EQ(v__3519712_37, v__3521231_37);
-if (True == v__3521232_37) {
-coraReturn(co, v__3519711_37);
+Obj v__3521219_37 = PRIM_CAR(v__3519701_37);
+Obj v__3521220_37 = PRIM_EQ(v__3519700_37, v__3521219_37);
+if (True == v__3521220_37) {
+coraReturn(co, v__3519699_37);
 return;
 } else {
-Obj v__3521233_37 = PRIM_ADD(v__3519711_37, MAKE_NUMBER(1));
-Obj v__3521234_37 = PRIM_CDR(v__3519713_37);
+Obj v__3521221_37 = PRIM_ADD(v__3519699_37, MAKE_NUMBER(1));
+Obj v__3521222_37 = PRIM_CDR(v__3519701_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3521233_37, v__3519712_37, v__3521234_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 51)), v__3521221_37, v__3519700_37, v__3521222_37);
 return;
 }
 }
@@ -4635,41 +4635,41 @@ static void clofun80(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519708_37 = R[1];
-Obj v__3519709_37 = R[2];
-R[1] = v__3519708_37;
-R[2] = v__3519709_37;
+Obj v__3519696_37 = R[1];
+Obj v__3519697_37 = R[2];
+R[1] = v__3519696_37;
+R[2] = v__3519697_37;
 saveCont(co, clofun80, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519709_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 52)), v__3519697_37);
 return;
 }
 case 1:
 {
-Obj v__3521226_37= co->res;
-Obj v__3519708_37 = R[1];
-Obj v__3520084_37 = R[2];
-Obj v__3519709_37 = R[3];
-if (True == v__3521226_37) {
+Obj v__3521214_37= co->res;
+Obj v__3519696_37 = R[1];
+Obj v__3520072_37 = R[2];
+Obj v__3519697_37 = R[3];
+if (True == v__3521214_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3521227_37 = makeCons(co->gc, v__3519708_37, v__3520084_37);
-Obj v__3521228_37 = primSet(co, v__3519709_37, v__3521227_37);
-coraReturn(co, v__3521228_37);
+Obj v__3521215_37 = makeCons(co->gc, v__3519696_37, v__3520072_37);
+Obj v__3521216_37 = primSet(co, v__3519697_37, v__3521215_37);
+coraReturn(co, v__3521216_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3521225_37= co->res;
-Obj v__3519708_37 = R[1];
-Obj v__3519709_37 = R[2];
-Obj v__3520084_37 = v__3521225_37;
-R[1] = v__3519708_37;
-R[2] = v__3520084_37;
-R[3] = v__3519709_37;
+Obj v__3521213_37= co->res;
+Obj v__3519696_37 = R[1];
+Obj v__3519697_37 = R[2];
+Obj v__3520072_37 = v__3521213_37;
+R[1] = v__3519696_37;
+R[2] = v__3520072_37;
+R[3] = v__3519697_37;
 saveCont(co, clofun80, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519708_37, v__3520084_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519696_37, v__3520072_37);
 return;
 }
 }
@@ -4679,26 +4679,26 @@ static void clofun79(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519705_37 = R[1];
-Obj v__3519706_37 = R[2];
-Obj v__3521218_37 = primGenSym(co);
-Obj v__3520083_37 = v__3521218_37;
-R[1] = v__3519705_37;
-R[2] = v__3520083_37;
+Obj v__3519693_37 = R[1];
+Obj v__3519694_37 = R[2];
+Obj v__3521206_37 = primGenSym(co);
+Obj v__3520071_37 = v__3521206_37;
+R[1] = v__3519693_37;
+R[2] = v__3520071_37;
 saveCont(co, clofun79, 1, R);
-coraCall1(co, v__3519706_37, v__3520083_37);
+coraCall1(co, v__3519694_37, v__3520071_37);
 return;
 }
 case 1:
 {
-Obj v__3521219_37= co->res;
-Obj v__3519705_37 = R[1];
-Obj v__3520083_37 = R[2];
-Obj v__3521220_37 = makeCons(co->gc, v__3521219_37, Nil);
-Obj v__3521221_37 = makeCons(co->gc, v__3519705_37, v__3521220_37);
-Obj v__3521222_37 = makeCons(co->gc, v__3520083_37, v__3521221_37);
-Obj v__3521223_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3521222_37);
-coraReturn(co, v__3521223_37);
+Obj v__3521207_37= co->res;
+Obj v__3519693_37 = R[1];
+Obj v__3520071_37 = R[2];
+Obj v__3521208_37 = makeCons(co->gc, v__3521207_37, Nil);
+Obj v__3521209_37 = makeCons(co->gc, v__3519693_37, v__3521208_37);
+Obj v__3521210_37 = makeCons(co->gc, v__3520071_37, v__3521209_37);
+Obj v__3521211_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3521210_37);
+coraReturn(co, v__3521211_37);
 return;
 }
 }
@@ -4708,52 +4708,52 @@ static void clofun78(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519700_37 = R[1];
-Obj v__3519701_37 = R[2];
-R[1] = v__3519701_37;
-R[2] = v__3519700_37;
+Obj v__3519688_37 = R[1];
+Obj v__3519689_37 = R[2];
+R[1] = v__3519689_37;
+R[2] = v__3519688_37;
 saveCont(co, clofun78, 3, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519700_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519688_37, MAKE_NUMBER(0));
 return;
 }
 case 1:
 {
-Obj v__3521216_37= co->res;
-Obj v__3519700_37 = R[1];
-Obj v__3520082_37 = R[2];
+Obj v__3521204_37= co->res;
+Obj v__3519688_37 = R[1];
+Obj v__3520070_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519700_37, MAKE_NUMBER(1), v__3520082_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519688_37, MAKE_NUMBER(1), v__3520070_37);
 return;
 }
 case 2:
 {
-Obj v__3521211_37= co->res;
-Obj v__3519701_37 = R[1];
-Obj v__3520080_37 = R[2];
-Obj v__3519700_37 = R[3];
-Obj v__3520081_37 = v__3521211_37;
-Obj v__3521212_37 = makeCons(co->gc, v__3519701_37, Nil);
-Obj v__3521213_37 = makeCons(co->gc, v__3520080_37, v__3521212_37);
-Obj v__3521214_37 = makeCons(co->gc, v__3521213_37, v__3520081_37);
-Obj v__3520082_37 = v__3521214_37;
-Obj v__3521215_37 = PRIM_ADD(v__3520080_37, MAKE_NUMBER(1));
-R[1] = v__3519700_37;
-R[2] = v__3520082_37;
+Obj v__3521199_37= co->res;
+Obj v__3519689_37 = R[1];
+Obj v__3520068_37 = R[2];
+Obj v__3519688_37 = R[3];
+Obj v__3520069_37 = v__3521199_37;
+Obj v__3521200_37 = makeCons(co->gc, v__3519689_37, Nil);
+Obj v__3521201_37 = makeCons(co->gc, v__3520068_37, v__3521200_37);
+Obj v__3521202_37 = makeCons(co->gc, v__3521201_37, v__3520069_37);
+Obj v__3520070_37 = v__3521202_37;
+Obj v__3521203_37 = PRIM_ADD(v__3520068_37, MAKE_NUMBER(1));
+R[1] = v__3519688_37;
+R[2] = v__3520070_37;
 saveCont(co, clofun78, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519700_37, MAKE_NUMBER(0), v__3521215_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 53)), v__3519688_37, MAKE_NUMBER(0), v__3521203_37);
 return;
 }
 case 3:
 {
-Obj v__3521210_37= co->res;
-Obj v__3519701_37 = R[1];
-Obj v__3519700_37 = R[2];
-Obj v__3520080_37 = v__3521210_37;
-R[1] = v__3519701_37;
-R[2] = v__3520080_37;
-R[3] = v__3519700_37;
+Obj v__3521198_37= co->res;
+Obj v__3519689_37 = R[1];
+Obj v__3519688_37 = R[2];
+Obj v__3520068_37 = v__3521198_37;
+R[1] = v__3519689_37;
+R[2] = v__3520068_37;
+R[3] = v__3519688_37;
 saveCont(co, clofun78, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519700_37, MAKE_NUMBER(1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519688_37, MAKE_NUMBER(1));
 return;
 }
 }
@@ -4763,195 +4763,195 @@ static void clofun77(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519690_37 = R[1];
-Obj v__3519691_37 = R[2];
-Obj v__3520072_37 = makeNative(co->gc, 1, clofun76, 0, 2, v__3519690_37, v__3519691_37);
-Obj v__3521161_37 = PRIM_ISCONS(v__3519691_37);
-if (True == v__3521161_37) {
-Obj v__3521162_37 = PRIM_CAR(v__3519691_37);
-Obj v__3521163_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521162_37);
-if (True == v__3521163_37) {
-Obj v__3521164_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521165_37 = PRIM_ISCONS(v__3521164_37);
-if (True == v__3521165_37) {
-Obj v__3521166_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521167_37 = PRIM_CAR(v__3521166_37);
-Obj v__3521168_37 = PRIM_ISCONS(v__3521167_37);
-if (True == v__3521168_37) {
-Obj v__3521169_37 = PRIM_CDR(v__3519691_37);
+Obj v__3519678_37 = R[1];
+Obj v__3519679_37 = R[2];
+Obj v__3520060_37 = makeNative(co->gc, 1, clofun76, 0, 2, v__3519678_37, v__3519679_37);
+Obj v__3521149_37 = PRIM_ISCONS(v__3519679_37);
+if (True == v__3521149_37) {
+Obj v__3521150_37 = PRIM_CAR(v__3519679_37);
+Obj v__3521151_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3521150_37);
+if (True == v__3521151_37) {
+Obj v__3521152_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521153_37 = PRIM_ISCONS(v__3521152_37);
+if (True == v__3521153_37) {
+Obj v__3521154_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521155_37 = PRIM_CAR(v__3521154_37);
+Obj v__3521156_37 = PRIM_ISCONS(v__3521155_37);
+if (True == v__3521156_37) {
+Obj v__3521157_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521158_37 = PRIM_CAR(v__3521157_37);
+Obj v__3521159_37 = PRIM_CAR(v__3521158_37);
+Obj v__3521160_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521159_37);
+if (True == v__3521160_37) {
+Obj v__3521161_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521162_37 = PRIM_CAR(v__3521161_37);
+Obj v__3521163_37 = PRIM_CDR(v__3521162_37);
+Obj v__3521164_37 = PRIM_ISCONS(v__3521163_37);
+if (True == v__3521164_37) {
+Obj v__3521165_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521166_37 = PRIM_CAR(v__3521165_37);
+Obj v__3521167_37 = PRIM_CDR(v__3521166_37);
+Obj v__3521168_37 = PRIM_CAR(v__3521167_37);
+Obj v__3520061_37 = v__3521168_37;
+Obj v__3521169_37 = PRIM_CDR(v__3519679_37);
 Obj v__3521170_37 = PRIM_CAR(v__3521169_37);
-Obj v__3521171_37 = PRIM_CAR(v__3521170_37);
-Obj v__3521172_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521171_37);
-if (True == v__3521172_37) {
-Obj v__3521173_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521174_37 = PRIM_CAR(v__3521173_37);
-Obj v__3521175_37 = PRIM_CDR(v__3521174_37);
-Obj v__3521176_37 = PRIM_ISCONS(v__3521175_37);
-if (True == v__3521176_37) {
-Obj v__3521177_37 = PRIM_CDR(v__3519691_37);
+Obj v__3521171_37 = PRIM_CDR(v__3521170_37);
+Obj v__3521172_37 = PRIM_CDR(v__3521171_37);
+Obj v__3521173_37 = PRIM_ISCONS(v__3521172_37);
+if (True == v__3521173_37) {
+Obj v__3521174_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521175_37 = PRIM_CAR(v__3521174_37);
+Obj v__3521176_37 = PRIM_CDR(v__3521175_37);
+Obj v__3521177_37 = PRIM_CDR(v__3521176_37);
 Obj v__3521178_37 = PRIM_CAR(v__3521177_37);
-Obj v__3521179_37 = PRIM_CDR(v__3521178_37);
+Obj v__3520062_37 = v__3521178_37;
+Obj v__3521179_37 = PRIM_CDR(v__3519679_37);
 Obj v__3521180_37 = PRIM_CAR(v__3521179_37);
-Obj v__3520073_37 = v__3521180_37;
-Obj v__3521181_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521182_37 = PRIM_CAR(v__3521181_37);
+Obj v__3521181_37 = PRIM_CDR(v__3521180_37);
+Obj v__3521182_37 = PRIM_CDR(v__3521181_37);
 Obj v__3521183_37 = PRIM_CDR(v__3521182_37);
-Obj v__3521184_37 = PRIM_CDR(v__3521183_37);
-Obj v__3521185_37 = PRIM_ISCONS(v__3521184_37);
-if (True == v__3521185_37) {
-Obj v__3521186_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521187_37 = PRIM_CAR(v__3521186_37);
-Obj v__3521188_37 = PRIM_CDR(v__3521187_37);
-Obj v__3521189_37 = PRIM_CDR(v__3521188_37);
-Obj v__3521190_37 = PRIM_CAR(v__3521189_37);
-Obj v__3520074_37 = v__3521190_37;
-Obj v__3521191_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521192_37 = PRIM_CAR(v__3521191_37);
-Obj v__3521193_37 = PRIM_CDR(v__3521192_37);
-Obj v__3521194_37 = PRIM_CDR(v__3521193_37);
-Obj v__3521195_37 = PRIM_CDR(v__3521194_37);
-Obj v__3521196_37 = PRIM_EQ(Nil, v__3521195_37);
-if (True == v__3521196_37) {
-Obj v__3521197_37 = PRIM_CDR(v__3519691_37);
-Obj v__3521198_37 = PRIM_CDR(v__3521197_37);
-Obj v__3520075_37 = v__3521198_37;
-R[1] = v__3519690_37;
-R[2] = v__3520073_37;
-R[3] = v__3520075_37;
+Obj v__3521184_37 = PRIM_EQ(Nil, v__3521183_37);
+if (True == v__3521184_37) {
+Obj v__3521185_37 = PRIM_CDR(v__3519679_37);
+Obj v__3521186_37 = PRIM_CDR(v__3521185_37);
+Obj v__3520063_37 = v__3521186_37;
+R[1] = v__3519678_37;
+R[2] = v__3520061_37;
+R[3] = v__3520063_37;
 saveCont(co, clofun77, 6, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519690_37, v__3520074_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 56)), v__3519678_37, v__3520062_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520072_37);
+coraCall0(co, v__3520060_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521204_37= co->res;
-Obj v__3520079_37 = R[1];
-Obj v__3520075_37 = R[2];
-Obj v__3520077_37 = R[3];
-Obj v__3521205_37 = makeCons(co->gc, v__3520079_37, v__3520075_37);
-Obj v__3521206_37 = makeCons(co->gc, v__3521204_37, v__3521205_37);
-Obj v__3521207_37 = makeCons(co->gc, v__3520077_37, v__3521206_37);
-Obj v__3521208_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3521207_37);
-coraReturn(co, v__3521208_37);
+Obj v__3521192_37= co->res;
+Obj v__3520067_37 = R[1];
+Obj v__3520063_37 = R[2];
+Obj v__3520065_37 = R[3];
+Obj v__3521193_37 = makeCons(co->gc, v__3520067_37, v__3520063_37);
+Obj v__3521194_37 = makeCons(co->gc, v__3521192_37, v__3521193_37);
+Obj v__3521195_37 = makeCons(co->gc, v__3520065_37, v__3521194_37);
+Obj v__3521196_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3521195_37);
+coraReturn(co, v__3521196_37);
 return;
 }
 case 2:
 {
-Obj v__3521203_37= co->res;
-Obj v__3520073_37 = R[1];
-Obj v__3520079_37 = R[2];
-Obj v__3520075_37 = R[3];
-Obj v__3520077_37 = R[4];
-R[1] = v__3520079_37;
-R[2] = v__3520075_37;
-R[3] = v__3520077_37;
+Obj v__3521191_37= co->res;
+Obj v__3520061_37 = R[1];
+Obj v__3520067_37 = R[2];
+Obj v__3520063_37 = R[3];
+Obj v__3520065_37 = R[4];
+R[1] = v__3520067_37;
+R[2] = v__3520063_37;
+R[3] = v__3520065_37;
 saveCont(co, clofun77, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520073_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3520061_37);
 return;
 }
 case 3:
 {
-Obj v__3521202_37= co->res;
-Obj v__3519690_37 = R[1];
-Obj v__3520078_37 = R[2];
-Obj v__3520073_37 = R[3];
-Obj v__3520075_37 = R[4];
-Obj v__3520077_37 = R[5];
-Obj v__3520079_37 = v__3521202_37;
-R[1] = v__3520073_37;
-R[2] = v__3520079_37;
-R[3] = v__3520075_37;
-R[4] = v__3520077_37;
+Obj v__3521190_37= co->res;
+Obj v__3519678_37 = R[1];
+Obj v__3520066_37 = R[2];
+Obj v__3520061_37 = R[3];
+Obj v__3520063_37 = R[4];
+Obj v__3520065_37 = R[5];
+Obj v__3520067_37 = v__3521190_37;
+R[1] = v__3520061_37;
+R[2] = v__3520067_37;
+R[3] = v__3520063_37;
+R[4] = v__3520065_37;
 saveCont(co, clofun77, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3519690_37, v__3520078_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 54)), v__3519678_37, v__3520066_37);
 return;
 }
 case 4:
 {
-Obj v__3521201_37= co->res;
-Obj v__3519690_37 = R[1];
-Obj v__3520073_37 = R[2];
-Obj v__3520075_37 = R[3];
-Obj v__3520077_37 = R[4];
-Obj v__3520078_37 = v__3521201_37;
-R[1] = v__3519690_37;
-R[2] = v__3520078_37;
-R[3] = v__3520073_37;
-R[4] = v__3520075_37;
-R[5] = v__3520077_37;
+Obj v__3521189_37= co->res;
+Obj v__3519678_37 = R[1];
+Obj v__3520061_37 = R[2];
+Obj v__3520063_37 = R[3];
+Obj v__3520065_37 = R[4];
+Obj v__3520066_37 = v__3521189_37;
+R[1] = v__3519678_37;
+R[2] = v__3520066_37;
+R[3] = v__3520061_37;
+R[4] = v__3520063_37;
+R[5] = v__3520065_37;
 saveCont(co, clofun77, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3520078_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 57)), v__3520066_37);
 return;
 }
 case 5:
 {
-Obj v__3521200_37= co->res;
-Obj v__3520076_37 = R[1];
-Obj v__3519690_37 = R[2];
-Obj v__3520073_37 = R[3];
-Obj v__3520075_37 = R[4];
-Obj v__3520077_37 = v__3521200_37;
-R[1] = v__3519690_37;
-R[2] = v__3520073_37;
-R[3] = v__3520075_37;
-R[4] = v__3520077_37;
+Obj v__3521188_37= co->res;
+Obj v__3520064_37 = R[1];
+Obj v__3519678_37 = R[2];
+Obj v__3520061_37 = R[3];
+Obj v__3520063_37 = R[4];
+Obj v__3520065_37 = v__3521188_37;
+R[1] = v__3519678_37;
+R[2] = v__3520061_37;
+R[3] = v__3520063_37;
+R[4] = v__3520065_37;
 saveCont(co, clofun77, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3520073_37, v__3520076_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 58)), v__3520061_37, v__3520064_37);
 return;
 }
 case 6:
 {
-Obj v__3521199_37= co->res;
-Obj v__3519690_37 = R[1];
-Obj v__3520073_37 = R[2];
-Obj v__3520075_37 = R[3];
-Obj v__3520076_37 = v__3521199_37;
-R[1] = v__3520076_37;
-R[2] = v__3519690_37;
-R[3] = v__3520073_37;
-R[4] = v__3520075_37;
+Obj v__3521187_37= co->res;
+Obj v__3519678_37 = R[1];
+Obj v__3520061_37 = R[2];
+Obj v__3520063_37 = R[3];
+Obj v__3520064_37 = v__3521187_37;
+R[1] = v__3520064_37;
+R[2] = v__3519678_37;
+R[3] = v__3520061_37;
+R[4] = v__3520063_37;
 saveCont(co, clofun77, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519690_37, MAKE_NUMBER(0));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 55)), v__3519678_37, MAKE_NUMBER(0));
 return;
 }
 }
@@ -4961,8 +4961,8 @@ static void clofun76(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521159_37 = PRIM_ISCONS(closureRef(R[0], 1));
-if (True == v__3521159_37) {
+Obj v__3521147_37 = PRIM_ISCONS(closureRef(R[0], 1));
+if (True == v__3521147_37) {
 saveCont(co, clofun76, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 56)), closureRef(R[0], 0));
 return;
@@ -4973,9 +4973,9 @@ return;
 }
 case 1:
 {
-Obj v__3521160_37= co->res;
+Obj v__3521148_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521160_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521148_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -4985,38 +4985,38 @@ static void clofun75(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519685_37 = R[1];
-R[1] = v__3519685_37;
+Obj v__3519673_37 = R[1];
+R[1] = v__3519673_37;
 saveCont(co, clofun75, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519685_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519673_37);
 return;
 }
 case 1:
 {
-Obj v__3521157_37= co->res;
-Obj v__3521156_37 = R[1];
+Obj v__3521145_37= co->res;
+Obj v__3521144_37 = R[1];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun74, 2, 0), v__3521156_37, v__3521157_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), makeNative(co->gc, 3, clofun74, 2, 0), v__3521144_37, v__3521145_37);
 return;
 }
 case 2:
 {
-Obj v__3521151_37= co->res;
-Obj v__3519685_37 = R[1];
-Obj v__3520070_37 = v__3521151_37;
-Obj v__3521156_37 = PRIM_ADD(v__3520070_37, MAKE_NUMBER(1));
-R[1] = v__3521156_37;
+Obj v__3521139_37= co->res;
+Obj v__3519673_37 = R[1];
+Obj v__3520058_37 = v__3521139_37;
+Obj v__3521144_37 = PRIM_ADD(v__3520058_37, MAKE_NUMBER(1));
+R[1] = v__3521144_37;
 saveCont(co, clofun75, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519685_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519673_37);
 return;
 }
 case 3:
 {
-Obj v__3521150_37= co->res;
-Obj v__3519685_37 = R[1];
-R[1] = v__3519685_37;
+Obj v__3521138_37= co->res;
+Obj v__3519673_37 = R[1];
+R[1] = v__3519673_37;
 saveCont(co, clofun75, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3521150_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3521138_37);
 return;
 }
 }
@@ -5026,35 +5026,35 @@ static void clofun74(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519687_37 = R[1];
-Obj v__3519688_37 = R[2];
-R[1] = v__3519687_37;
+Obj v__3519675_37 = R[1];
+Obj v__3519676_37 = R[2];
+R[1] = v__3519675_37;
 saveCont(co, clofun74, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519688_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519676_37);
 return;
 }
 case 1:
 {
-Obj v__3521153_37= co->res;
-Obj v__3519687_37 = R[1];
-Obj v__3521154_37 = PRIM_ADD(v__3521153_37, MAKE_NUMBER(1));
-Obj v__3520071_37 = v__3521154_37;
-Obj v__3521155_37 = PRIM_GT(v__3520071_37, v__3519687_37);
-if (True == v__3521155_37) {
-coraReturn(co, v__3520071_37);
+Obj v__3521141_37= co->res;
+Obj v__3519675_37 = R[1];
+Obj v__3521142_37 = PRIM_ADD(v__3521141_37, MAKE_NUMBER(1));
+Obj v__3520059_37 = v__3521142_37;
+Obj v__3521143_37 = PRIM_GT(v__3520059_37, v__3519675_37);
+if (True == v__3521143_37) {
+coraReturn(co, v__3520059_37);
 return;
 } else {
-coraReturn(co, v__3519687_37);
+coraReturn(co, v__3519675_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3521152_37= co->res;
-Obj v__3519687_37 = R[1];
-R[1] = v__3519687_37;
+Obj v__3521140_37= co->res;
+Obj v__3519675_37 = R[1];
+R[1] = v__3519675_37;
 saveCont(co, clofun74, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3521152_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3521140_37);
 return;
 }
 }
@@ -5064,10 +5064,10 @@ static void clofun73(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519681_37 = R[1];
-Obj v__3519682_37 = R[2];
+Obj v__3519669_37 = R[1];
+Obj v__3519670_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519682_37, Nil, makeNative(co->gc, 3, clofun72, 2, 1, v__3519681_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3519670_37, Nil, makeNative(co->gc, 3, clofun72, 2, 1, v__3519669_37));
 return;
 }
 }
@@ -5077,21 +5077,21 @@ static void clofun72(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519683_37 = R[1];
-Obj v__3519684_37 = R[2];
-R[1] = v__3519683_37;
+Obj v__3519671_37 = R[1];
+Obj v__3519672_37 = R[2];
+R[1] = v__3519671_37;
 saveCont(co, clofun72, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519684_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519672_37);
 return;
 }
 case 1:
 {
-Obj v__3521145_37= co->res;
-Obj v__3519683_37 = R[1];
-Obj v__3521146_37 = makeCons(co->gc, v__3519683_37, v__3521145_37);
-Obj v__3521147_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521146_37);
-Obj v__3521148_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3521147_37);
-coraReturn(co, v__3521148_37);
+Obj v__3521133_37= co->res;
+Obj v__3519671_37 = R[1];
+Obj v__3521134_37 = makeCons(co->gc, v__3519671_37, v__3521133_37);
+Obj v__3521135_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521134_37);
+Obj v__3521136_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3521135_37);
+coraReturn(co, v__3521136_37);
 return;
 }
 }
@@ -5101,24 +5101,24 @@ static void clofun71(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519665_37 = R[1];
-Obj v__3519666_37 = R[2];
-Obj v__3519667_37 = R[3];
-Obj v__3519668_37 = R[4];
-Obj v__3521139_37 = PRIM_EQ(Nil, v__3519665_37);
-if (True == v__3521139_37) {
+Obj v__3519653_37 = R[1];
+Obj v__3519654_37 = R[2];
+Obj v__3519655_37 = R[3];
+Obj v__3519656_37 = R[4];
+Obj v__3521127_37 = PRIM_EQ(Nil, v__3519653_37);
+if (True == v__3521127_37) {
 co->ctx.sp = R;
-coraCall2(co, v__3519668_37, v__3519667_37, v__3519666_37);
+coraCall2(co, v__3519656_37, v__3519655_37, v__3519654_37);
 return;
 } else {
-Obj v__3521140_37 = PRIM_ISCONS(v__3519665_37);
-if (True == v__3521140_37) {
-Obj v__3521141_37 = PRIM_CAR(v__3519665_37);
-Obj v__3520068_37 = v__3521141_37;
-Obj v__3521142_37 = PRIM_CDR(v__3519665_37);
-Obj v__3520069_37 = v__3521142_37;
+Obj v__3521128_37 = PRIM_ISCONS(v__3519653_37);
+if (True == v__3521128_37) {
+Obj v__3521129_37 = PRIM_CAR(v__3519653_37);
+Obj v__3520056_37 = v__3521129_37;
+Obj v__3521130_37 = PRIM_CDR(v__3519653_37);
+Obj v__3520057_37 = v__3521130_37;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3520068_37, v__3519666_37, makeNative(co->gc, 3, clofun70, 2, 3, v__3520069_37, v__3519667_37, v__3519668_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3520056_37, v__3519654_37, makeNative(co->gc, 3, clofun70, 2, 3, v__3520057_37, v__3519655_37, v__3519656_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5134,10 +5134,10 @@ static void clofun70(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519677_37 = R[1];
-Obj v__3519678_37 = R[2];
+Obj v__3519665_37 = R[1];
+Obj v__3519666_37 = R[2];
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v__3519678_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun69, 2, 2, closureRef(R[0], 2), v__3519677_37));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), closureRef(R[0], 0), v__3519666_37, closureRef(R[0], 1), makeNative(co->gc, 3, clofun69, 2, 2, closureRef(R[0], 2), v__3519665_37));
 return;
 }
 }
@@ -5147,11 +5147,11 @@ static void clofun69(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519679_37 = R[1];
-Obj v__3519680_37 = R[2];
-Obj v__3521143_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519679_37);
+Obj v__3519667_37 = R[1];
+Obj v__3519668_37 = R[2];
+Obj v__3521131_37 = makeCons(co->gc, closureRef(R[0], 1), v__3519667_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3521143_37, v__3519680_37);
+coraCall2(co, closureRef(R[0], 0), v__3521131_37, v__3519668_37);
 return;
 }
 }
@@ -5161,33 +5161,33 @@ static void clofun68(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519646_37 = R[1];
-Obj v__3519647_37 = R[2];
-Obj v__3519648_37 = R[3];
-Obj v__3520061_37 = makeNative(co->gc, 2, clofun67, 1, 3, v__3519646_37, v__3519647_37, v__3519648_37);
-Obj v__3521136_37 = primIsSymbol(v__3519646_37);
-if (True == v__3521136_37) {
+Obj v__3519634_37 = R[1];
+Obj v__3519635_37 = R[2];
+Obj v__3519636_37 = R[3];
+Obj v__3520049_37 = makeNative(co->gc, 2, clofun67, 1, 3, v__3519634_37, v__3519635_37, v__3519636_37);
+Obj v__3521124_37 = primIsSymbol(v__3519634_37);
+if (True == v__3521124_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3520061_37, True);
+coraCall1(co, v__3520049_37, True);
 return;
 } else {
-R[1] = v__3520061_37;
+R[1] = v__3520049_37;
 saveCont(co, clofun68, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519646_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519634_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521137_37= co->res;
-Obj v__3520061_37 = R[1];
-if (True == v__3521137_37) {
+Obj v__3521125_37= co->res;
+Obj v__3520049_37 = R[1];
+if (True == v__3521125_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3520061_37, True);
+coraCall1(co, v__3520049_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3520061_37, False);
+coraCall1(co, v__3520049_37, False);
 return;
 }
 }
@@ -5198,63 +5198,63 @@ static void clofun67(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520060_37 = R[1];
-if (True == v__3520060_37) {
+Obj v__3520048_37 = R[1];
+if (True == v__3520048_37) {
 co->ctx.sp = R;
 coraCall2(co, closureRef(R[0], 2), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3520062_37 = makeNative(co->gc, 1, clofun65, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3521112_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521112_37) {
-Obj v__3521113_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521114_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521113_37);
-if (True == v__3521114_37) {
-Obj v__3521115_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521116_37 = PRIM_ISCONS(v__3521115_37);
+Obj v__3520050_37 = makeNative(co->gc, 1, clofun65, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3521100_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521100_37) {
+Obj v__3521101_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521102_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521101_37);
+if (True == v__3521102_37) {
+Obj v__3521103_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521104_37 = PRIM_ISCONS(v__3521103_37);
+if (True == v__3521104_37) {
+Obj v__3521105_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521106_37 = PRIM_CAR(v__3521105_37);
+Obj v__3520053_37 = v__3521106_37;
+Obj v__3521107_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521108_37 = PRIM_CDR(v__3521107_37);
+Obj v__3521109_37 = PRIM_ISCONS(v__3521108_37);
+if (True == v__3521109_37) {
+Obj v__3521110_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521111_37 = PRIM_CDR(v__3521110_37);
+Obj v__3521112_37 = PRIM_CAR(v__3521111_37);
+Obj v__3520054_37 = v__3521112_37;
+Obj v__3521113_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521114_37 = PRIM_CDR(v__3521113_37);
+Obj v__3521115_37 = PRIM_CDR(v__3521114_37);
+Obj v__3521116_37 = PRIM_EQ(Nil, v__3521115_37);
 if (True == v__3521116_37) {
-Obj v__3521117_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521118_37 = PRIM_CAR(v__3521117_37);
-Obj v__3520065_37 = v__3521118_37;
-Obj v__3521119_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521120_37 = PRIM_CDR(v__3521119_37);
-Obj v__3521121_37 = PRIM_ISCONS(v__3521120_37);
-if (True == v__3521121_37) {
-Obj v__3521122_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521123_37 = PRIM_CDR(v__3521122_37);
-Obj v__3521124_37 = PRIM_CAR(v__3521123_37);
-Obj v__3520066_37 = v__3521124_37;
-Obj v__3521125_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521126_37 = PRIM_CDR(v__3521125_37);
-Obj v__3521127_37 = PRIM_CDR(v__3521126_37);
-Obj v__3521128_37 = PRIM_EQ(Nil, v__3521127_37);
-if (True == v__3521128_37) {
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3520066_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun66, 2, 2, closureRef(R[0], 2), v__3520065_37));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 61)), v__3520054_37, closureRef(R[0], 1), makeNative(co->gc, 4, clofun66, 2, 2, closureRef(R[0], 2), v__3520053_37));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520062_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520062_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520062_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520062_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520062_37);
+coraCall0(co, v__3520050_37);
 return;
 }
 }
@@ -5266,40 +5266,40 @@ static void clofun66(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519662_37 = R[1];
-Obj v__3519663_37 = R[2];
-R[1] = v__3519662_37;
-R[2] = v__3519663_37;
+Obj v__3519650_37 = R[1];
+Obj v__3519651_37 = R[2];
+R[1] = v__3519650_37;
+R[2] = v__3519651_37;
 saveCont(co, clofun66, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519662_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 59)), v__3519650_37);
 return;
 }
 case 1:
 {
-Obj v__3521130_37= co->res;
-Obj v__3520067_37 = R[1];
-Obj v__3519662_37 = R[2];
-Obj v__3519663_37 = R[3];
-Obj v__3521131_37 = PRIM_ADD(v__3521130_37, MAKE_NUMBER(1));
-Obj v__3521132_37 = makeCons(co->gc, v__3521131_37, v__3520067_37);
-Obj v__3521133_37 = makeCons(co->gc, closureRef(R[0], 1), v__3521132_37);
-Obj v__3521134_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521133_37);
-Obj v__3521135_37 = makeCons(co->gc, v__3519662_37, v__3519663_37);
+Obj v__3521118_37= co->res;
+Obj v__3520055_37 = R[1];
+Obj v__3519650_37 = R[2];
+Obj v__3519651_37 = R[3];
+Obj v__3521119_37 = PRIM_ADD(v__3521118_37, MAKE_NUMBER(1));
+Obj v__3521120_37 = makeCons(co->gc, v__3521119_37, v__3520055_37);
+Obj v__3521121_37 = makeCons(co->gc, closureRef(R[0], 1), v__3521120_37);
+Obj v__3521122_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521121_37);
+Obj v__3521123_37 = makeCons(co->gc, v__3519650_37, v__3519651_37);
 co->ctx.sp = R;
-coraCall2(co, closureRef(R[0], 0), v__3521134_37, v__3521135_37);
+coraCall2(co, closureRef(R[0], 0), v__3521122_37, v__3521123_37);
 return;
 }
 case 2:
 {
-Obj v__3521129_37= co->res;
-Obj v__3519662_37 = R[1];
-Obj v__3519663_37 = R[2];
-Obj v__3520067_37 = v__3521129_37;
-R[1] = v__3520067_37;
-R[2] = v__3519662_37;
-R[3] = v__3519663_37;
+Obj v__3521117_37= co->res;
+Obj v__3519650_37 = R[1];
+Obj v__3519651_37 = R[2];
+Obj v__3520055_37 = v__3521117_37;
+R[1] = v__3520055_37;
+R[2] = v__3519650_37;
+R[3] = v__3519651_37;
 saveCont(co, clofun66, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3519663_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), v__3519651_37);
 return;
 }
 }
@@ -5309,15 +5309,15 @@ static void clofun65(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521108_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521108_37) {
-Obj v__3521109_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520063_37 = v__3521109_37;
-Obj v__3521110_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520064_37 = v__3521110_37;
-Obj v__3521111_37 = makeCons(co->gc, v__3520063_37, v__3520064_37);
+Obj v__3521096_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521096_37) {
+Obj v__3521097_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520051_37 = v__3521097_37;
+Obj v__3521098_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520052_37 = v__3521098_37;
+Obj v__3521099_37 = makeCons(co->gc, v__3520051_37, v__3520052_37);
 co->ctx.sp = R;
-coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3521111_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
+coraCall4(co, globalRef(co, getBinding(co, packageID, 60)), v__3521099_37, closureRef(R[0], 1), Nil, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
@@ -5332,90 +5332,90 @@ static void clofun64(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519605_37 = R[1];
-Obj v__3519606_37 = R[2];
-R[1] = v__3519606_37;
-R[2] = v__3519605_37;
+Obj v__3519593_37 = R[1];
+Obj v__3519594_37 = R[2];
+R[1] = v__3519594_37;
+R[2] = v__3519593_37;
 saveCont(co, clofun64, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519606_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519594_37);
 return;
 }
 case 1:
 {
-Obj v__3521103_37= co->res;
-Obj v__3520057_37 = R[1];
-Obj v__3521104_37 = makeCons(co->gc, v__3521103_37, Nil);
-Obj v__3521105_37 = makeCons(co->gc, v__3520057_37, v__3521104_37);
-Obj v__3521106_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3521105_37);
-coraReturn(co, v__3521106_37);
+Obj v__3521091_37= co->res;
+Obj v__3520045_37 = R[1];
+Obj v__3521092_37 = makeCons(co->gc, v__3521091_37, Nil);
+Obj v__3521093_37 = makeCons(co->gc, v__3520045_37, v__3521092_37);
+Obj v__3521094_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3521093_37);
+coraReturn(co, v__3521094_37);
 return;
 }
 case 2:
 {
-Obj v__3521031_37= co->res;
-Obj v__3519606_37 = R[1];
-Obj v__3519605_37 = R[2];
-if (True == v__3521031_37) {
-coraReturn(co, v__3519606_37);
-return;
-} else {
-Obj v__3521032_37 = primIsSymbol(v__3519606_37);
-if (True == v__3521032_37) {
-coraReturn(co, v__3519606_37);
-return;
-} else {
-Obj v__3520046_37 = makeNative(co->gc, 4, clofun63, 0, 2, v__3519606_37, v__3519605_37);
-Obj v__3521086_37 = PRIM_ISCONS(v__3519606_37);
-if (True == v__3521086_37) {
-Obj v__3521087_37 = PRIM_CAR(v__3519606_37);
-Obj v__3521088_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521087_37);
-if (True == v__3521088_37) {
-Obj v__3521089_37 = PRIM_CDR(v__3519606_37);
-Obj v__3521090_37 = PRIM_ISCONS(v__3521089_37);
+Obj v__3521019_37= co->res;
+Obj v__3519594_37 = R[1];
+Obj v__3519593_37 = R[2];
+if (True == v__3521019_37) {
+coraReturn(co, v__3519594_37);
+return;
+} else {
+Obj v__3521020_37 = primIsSymbol(v__3519594_37);
+if (True == v__3521020_37) {
+coraReturn(co, v__3519594_37);
+return;
+} else {
+Obj v__3520034_37 = makeNative(co->gc, 4, clofun63, 0, 2, v__3519594_37, v__3519593_37);
+Obj v__3521074_37 = PRIM_ISCONS(v__3519594_37);
+if (True == v__3521074_37) {
+Obj v__3521075_37 = PRIM_CAR(v__3519594_37);
+Obj v__3521076_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3521075_37);
+if (True == v__3521076_37) {
+Obj v__3521077_37 = PRIM_CDR(v__3519594_37);
+Obj v__3521078_37 = PRIM_ISCONS(v__3521077_37);
+if (True == v__3521078_37) {
+Obj v__3521079_37 = PRIM_CDR(v__3519594_37);
+Obj v__3521080_37 = PRIM_CAR(v__3521079_37);
+Obj v__3520045_37 = v__3521080_37;
+Obj v__3521081_37 = PRIM_CDR(v__3519594_37);
+Obj v__3521082_37 = PRIM_CDR(v__3521081_37);
+Obj v__3521083_37 = PRIM_ISCONS(v__3521082_37);
+if (True == v__3521083_37) {
+Obj v__3521084_37 = PRIM_CDR(v__3519594_37);
+Obj v__3521085_37 = PRIM_CDR(v__3521084_37);
+Obj v__3521086_37 = PRIM_CAR(v__3521085_37);
+Obj v__3520046_37 = v__3521086_37;
+Obj v__3521087_37 = PRIM_CDR(v__3519594_37);
+Obj v__3521088_37 = PRIM_CDR(v__3521087_37);
+Obj v__3521089_37 = PRIM_CDR(v__3521088_37);
+Obj v__3521090_37 = PRIM_EQ(Nil, v__3521089_37);
 if (True == v__3521090_37) {
-Obj v__3521091_37 = PRIM_CDR(v__3519606_37);
-Obj v__3521092_37 = PRIM_CAR(v__3521091_37);
-Obj v__3520057_37 = v__3521092_37;
-Obj v__3521093_37 = PRIM_CDR(v__3519606_37);
-Obj v__3521094_37 = PRIM_CDR(v__3521093_37);
-Obj v__3521095_37 = PRIM_ISCONS(v__3521094_37);
-if (True == v__3521095_37) {
-Obj v__3521096_37 = PRIM_CDR(v__3519606_37);
-Obj v__3521097_37 = PRIM_CDR(v__3521096_37);
-Obj v__3521098_37 = PRIM_CAR(v__3521097_37);
-Obj v__3520058_37 = v__3521098_37;
-Obj v__3521099_37 = PRIM_CDR(v__3519606_37);
-Obj v__3521100_37 = PRIM_CDR(v__3521099_37);
-Obj v__3521101_37 = PRIM_CDR(v__3521100_37);
-Obj v__3521102_37 = PRIM_EQ(Nil, v__3521101_37);
-if (True == v__3521102_37) {
-R[1] = v__3520057_37;
+R[1] = v__3520045_37;
 saveCont(co, clofun64, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519605_37, v__3520058_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3519593_37, v__3520046_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520046_37);
+coraCall0(co, v__3520034_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520046_37);
+coraCall0(co, v__3520034_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520046_37);
+coraCall0(co, v__3520034_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520046_37);
+coraCall0(co, v__3520034_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520046_37);
+coraCall0(co, v__3520034_37);
 return;
 }
 }
@@ -5428,121 +5428,121 @@ static void clofun63(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520047_37 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521061_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521061_37) {
-Obj v__3521062_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521063_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521062_37);
-if (True == v__3521063_37) {
-Obj v__3521064_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521065_37 = PRIM_ISCONS(v__3521064_37);
+Obj v__3520035_37 = makeNative(co->gc, 3, clofun62, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521049_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521049_37) {
+Obj v__3521050_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521051_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3521050_37);
+if (True == v__3521051_37) {
+Obj v__3521052_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521053_37 = PRIM_ISCONS(v__3521052_37);
+if (True == v__3521053_37) {
+Obj v__3521054_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521055_37 = PRIM_CAR(v__3521054_37);
+Obj v__3520041_37 = v__3521055_37;
+Obj v__3521056_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521057_37 = PRIM_CDR(v__3521056_37);
+Obj v__3521058_37 = PRIM_ISCONS(v__3521057_37);
+if (True == v__3521058_37) {
+Obj v__3521059_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521060_37 = PRIM_CDR(v__3521059_37);
+Obj v__3521061_37 = PRIM_CAR(v__3521060_37);
+Obj v__3520042_37 = v__3521061_37;
+Obj v__3521062_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521063_37 = PRIM_CDR(v__3521062_37);
+Obj v__3521064_37 = PRIM_CDR(v__3521063_37);
+Obj v__3521065_37 = PRIM_EQ(Nil, v__3521064_37);
 if (True == v__3521065_37) {
-Obj v__3521066_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521067_37 = PRIM_CAR(v__3521066_37);
-Obj v__3520053_37 = v__3521067_37;
-Obj v__3521068_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521069_37 = PRIM_CDR(v__3521068_37);
-Obj v__3521070_37 = PRIM_ISCONS(v__3521069_37);
-if (True == v__3521070_37) {
-Obj v__3521071_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521072_37 = PRIM_CDR(v__3521071_37);
-Obj v__3521073_37 = PRIM_CAR(v__3521072_37);
-Obj v__3520054_37 = v__3521073_37;
-Obj v__3521074_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521075_37 = PRIM_CDR(v__3521074_37);
-Obj v__3521076_37 = PRIM_CDR(v__3521075_37);
-Obj v__3521077_37 = PRIM_EQ(Nil, v__3521076_37);
-if (True == v__3521077_37) {
-R[1] = v__3520054_37;
-R[2] = v__3520053_37;
+R[1] = v__3520042_37;
+R[2] = v__3520041_37;
 saveCont(co, clofun63, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520054_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520042_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520035_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520035_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520035_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520035_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520047_37);
+coraCall0(co, v__3520035_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521082_37= co->res;
-Obj v__3520056_37 = R[1];
-Obj v__3520053_37 = R[2];
-Obj v__3521083_37 = makeCons(co->gc, v__3521082_37, v__3520056_37);
-Obj v__3521084_37 = makeCons(co->gc, v__3520053_37, v__3521083_37);
-Obj v__3521085_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3521084_37);
-coraReturn(co, v__3521085_37);
+Obj v__3521070_37= co->res;
+Obj v__3520044_37 = R[1];
+Obj v__3520041_37 = R[2];
+Obj v__3521071_37 = makeCons(co->gc, v__3521070_37, v__3520044_37);
+Obj v__3521072_37 = makeCons(co->gc, v__3520041_37, v__3521071_37);
+Obj v__3521073_37 = makeCons(co->gc, getBinding(co, packageID, 62).name, v__3521072_37);
+coraReturn(co, v__3521073_37);
 return;
 }
 case 2:
 {
-Obj v__3521081_37= co->res;
-Obj v__3520055_37 = R[1];
-Obj v__3520054_37 = R[2];
-Obj v__3520053_37 = R[3];
-Obj v__3520056_37 = v__3521081_37;
-R[1] = v__3520056_37;
-R[2] = v__3520053_37;
+Obj v__3521069_37= co->res;
+Obj v__3520043_37 = R[1];
+Obj v__3520042_37 = R[2];
+Obj v__3520041_37 = R[3];
+Obj v__3520044_37 = v__3521069_37;
+R[1] = v__3520044_37;
+R[2] = v__3520041_37;
 saveCont(co, clofun63, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3520055_37, v__3520054_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), v__3520043_37, v__3520042_37);
 return;
 }
 case 3:
 {
-Obj v__3521080_37= co->res;
-Obj v__3520055_37 = R[1];
-Obj v__3520054_37 = R[2];
-Obj v__3520053_37 = R[3];
-R[1] = v__3520055_37;
-R[2] = v__3520054_37;
-R[3] = v__3520053_37;
+Obj v__3521068_37= co->res;
+Obj v__3520043_37 = R[1];
+Obj v__3520042_37 = R[2];
+Obj v__3520041_37 = R[3];
+R[1] = v__3520043_37;
+R[2] = v__3520042_37;
+R[3] = v__3520041_37;
 saveCont(co, clofun63, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521080_37, v__3520055_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521068_37, v__3520043_37);
 return;
 }
 case 4:
 {
-Obj v__3521079_37= co->res;
-Obj v__3520054_37 = R[1];
-Obj v__3520053_37 = R[2];
-Obj v__3520055_37 = v__3521079_37;
-R[1] = v__3520055_37;
-R[2] = v__3520054_37;
-R[3] = v__3520053_37;
+Obj v__3521067_37= co->res;
+Obj v__3520042_37 = R[1];
+Obj v__3520041_37 = R[2];
+Obj v__3520043_37 = v__3521067_37;
+R[1] = v__3520043_37;
+R[2] = v__3520042_37;
+R[3] = v__3520041_37;
 saveCont(co, clofun63, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 }
 case 5:
 {
-Obj v__3521078_37= co->res;
-Obj v__3520054_37 = R[1];
-Obj v__3520053_37 = R[2];
-R[1] = v__3520054_37;
-R[2] = v__3520053_37;
+Obj v__3521066_37= co->res;
+Obj v__3520042_37 = R[1];
+Obj v__3520041_37 = R[2];
+R[1] = v__3520042_37;
+R[2] = v__3520041_37;
 saveCont(co, clofun63, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3521078_37, v__3520053_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3521066_37, v__3520041_37);
 return;
 }
 }
@@ -5552,89 +5552,89 @@ static void clofun62(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520048_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3521038_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521038_37) {
-Obj v__3521039_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3521040_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521039_37);
-if (True == v__3521040_37) {
-Obj v__3521041_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521042_37 = PRIM_ISCONS(v__3521041_37);
+Obj v__3520036_37 = makeNative(co->gc, 3, clofun61, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3521026_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521026_37) {
+Obj v__3521027_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3521028_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3521027_37);
+if (True == v__3521028_37) {
+Obj v__3521029_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521030_37 = PRIM_ISCONS(v__3521029_37);
+if (True == v__3521030_37) {
+Obj v__3521031_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521032_37 = PRIM_CAR(v__3521031_37);
+Obj v__3520039_37 = v__3521032_37;
+Obj v__3521033_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521034_37 = PRIM_CDR(v__3521033_37);
+Obj v__3521035_37 = PRIM_ISCONS(v__3521034_37);
+if (True == v__3521035_37) {
+Obj v__3521036_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521037_37 = PRIM_CDR(v__3521036_37);
+Obj v__3521038_37 = PRIM_CAR(v__3521037_37);
+Obj v__3520040_37 = v__3521038_37;
+Obj v__3521039_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3521040_37 = PRIM_CDR(v__3521039_37);
+Obj v__3521041_37 = PRIM_CDR(v__3521040_37);
+Obj v__3521042_37 = PRIM_EQ(Nil, v__3521041_37);
 if (True == v__3521042_37) {
-Obj v__3521043_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521044_37 = PRIM_CAR(v__3521043_37);
-Obj v__3520051_37 = v__3521044_37;
-Obj v__3521045_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521046_37 = PRIM_CDR(v__3521045_37);
-Obj v__3521047_37 = PRIM_ISCONS(v__3521046_37);
-if (True == v__3521047_37) {
-Obj v__3521048_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521049_37 = PRIM_CDR(v__3521048_37);
-Obj v__3521050_37 = PRIM_CAR(v__3521049_37);
-Obj v__3520052_37 = v__3521050_37;
-Obj v__3521051_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3521052_37 = PRIM_CDR(v__3521051_37);
-Obj v__3521053_37 = PRIM_CDR(v__3521052_37);
-Obj v__3521054_37 = PRIM_EQ(Nil, v__3521053_37);
-if (True == v__3521054_37) {
-R[1] = v__3520051_37;
-R[2] = v__3520052_37;
+R[1] = v__3520039_37;
+R[2] = v__3520040_37;
 saveCont(co, clofun62, 3, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520036_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520036_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520036_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520036_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520048_37);
+coraCall0(co, v__3520036_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521057_37= co->res;
-Obj v__3521056_37 = R[1];
-Obj v__3521058_37 = makeCons(co->gc, v__3521057_37, Nil);
-Obj v__3521059_37 = makeCons(co->gc, v__3521056_37, v__3521058_37);
-Obj v__3521060_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521059_37);
-coraReturn(co, v__3521060_37);
+Obj v__3521045_37= co->res;
+Obj v__3521044_37 = R[1];
+Obj v__3521046_37 = makeCons(co->gc, v__3521045_37, Nil);
+Obj v__3521047_37 = makeCons(co->gc, v__3521044_37, v__3521046_37);
+Obj v__3521048_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521047_37);
+coraReturn(co, v__3521048_37);
 return;
 }
 case 2:
 {
-Obj v__3521056_37= co->res;
-Obj v__3520052_37 = R[1];
-R[1] = v__3521056_37;
+Obj v__3521044_37= co->res;
+Obj v__3520040_37 = R[1];
+R[1] = v__3521044_37;
 saveCont(co, clofun62, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3520052_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1), v__3520040_37);
 return;
 }
 case 3:
 {
-Obj v__3521055_37= co->res;
-Obj v__3520051_37 = R[1];
-Obj v__3520052_37 = R[2];
-R[1] = v__3520052_37;
+Obj v__3521043_37= co->res;
+Obj v__3520039_37 = R[1];
+Obj v__3520040_37 = R[2];
+R[1] = v__3520040_37;
 saveCont(co, clofun62, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521055_37, v__3520051_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521043_37, v__3520039_37);
 return;
 }
 }
@@ -5644,14 +5644,14 @@ static void clofun61(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3521033_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3521033_37) {
-Obj v__3521034_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520049_37 = v__3521034_37;
-Obj v__3521035_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520050_37 = v__3521035_37;
-R[1] = v__3520049_37;
-R[2] = v__3520050_37;
+Obj v__3521021_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3521021_37) {
+Obj v__3521022_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520037_37 = v__3521022_37;
+Obj v__3521023_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520038_37 = v__3521023_37;
+R[1] = v__3520037_37;
+R[2] = v__3520038_37;
 saveCont(co, clofun61, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 63)), closureRef(R[0], 1));
 return;
@@ -5663,12 +5663,12 @@ return;
 }
 case 1:
 {
-Obj v__3521036_37= co->res;
-Obj v__3520049_37 = R[1];
-Obj v__3520050_37 = R[2];
-Obj v__3521037_37 = makeCons(co->gc, v__3520049_37, v__3520050_37);
+Obj v__3521024_37= co->res;
+Obj v__3520037_37 = R[1];
+Obj v__3520038_37 = R[2];
+Obj v__3521025_37 = makeCons(co->gc, v__3520037_37, v__3520038_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521036_37, v__3521037_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3521024_37, v__3521025_37);
 return;
 }
 }
@@ -5678,24 +5678,24 @@ static void clofun60(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519594_37 = R[1];
-Obj v__3519595_37 = R[2];
-Obj v__3519596_37 = R[3];
-Obj v__3521008_37 = PRIM_EQ(Nil, v__3519594_37);
-if (True == v__3521008_37) {
-R[1] = v__3519596_37;
+Obj v__3519582_37 = R[1];
+Obj v__3519583_37 = R[2];
+Obj v__3519584_37 = R[3];
+Obj v__3520996_37 = PRIM_EQ(Nil, v__3519582_37);
+if (True == v__3520996_37) {
+R[1] = v__3519584_37;
 saveCont(co, clofun60, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519595_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519583_37);
 return;
 } else {
-Obj v__3521026_37 = PRIM_ISCONS(v__3519594_37);
-if (True == v__3521026_37) {
-Obj v__3521027_37 = PRIM_CAR(v__3519594_37);
-Obj v__3520044_37 = v__3521027_37;
-Obj v__3521028_37 = PRIM_CDR(v__3519594_37);
-Obj v__3520045_37 = v__3521028_37;
+Obj v__3521014_37 = PRIM_ISCONS(v__3519582_37);
+if (True == v__3521014_37) {
+Obj v__3521015_37 = PRIM_CAR(v__3519582_37);
+Obj v__3520032_37 = v__3521015_37;
+Obj v__3521016_37 = PRIM_CDR(v__3519582_37);
+Obj v__3520033_37 = v__3521016_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520044_37, makeNative(co->gc, 2, clofun59, 1, 3, v__3520045_37, v__3519595_37, v__3519596_37));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520032_37, makeNative(co->gc, 2, clofun59, 1, 3, v__3520033_37, v__3519583_37, v__3519584_37));
 return;
 } else {
 co->ctx.sp = R;
@@ -5706,46 +5706,46 @@ return;
 }
 case 1:
 {
-Obj v__3521024_37= co->res;
-Obj v__3520042_37 = R[1];
-Obj v__3521025_37 = PRIM_EQ(v__3521024_37, getBinding(co, packageID, 87).name);
-if (True == v__3521025_37) {
+Obj v__3521012_37= co->res;
+Obj v__3520030_37 = R[1];
+Obj v__3521013_37 = PRIM_EQ(v__3521012_37, getBinding(co, packageID, 87).name);
+if (True == v__3521013_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3520042_37, True);
+coraCall1(co, v__3520030_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3520042_37, False);
+coraCall1(co, v__3520030_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3521023_37= co->res;
-Obj v__3520039_37 = R[1];
-Obj v__3520042_37 = R[2];
-if (True == v__3521023_37) {
-R[1] = v__3520042_37;
+Obj v__3521011_37= co->res;
+Obj v__3520027_37 = R[1];
+Obj v__3520030_37 = R[2];
+if (True == v__3521011_37) {
+R[1] = v__3520030_37;
 saveCont(co, clofun60, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3520039_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 64)), v__3520027_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3520042_37, False);
+coraCall1(co, v__3520030_37, False);
 return;
 }
 }
 case 3:
 {
-Obj v__3521009_37= co->res;
-Obj v__3519596_37 = R[1];
-Obj v__3520039_37 = v__3521009_37;
-Obj v__3520042_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3520039_37, v__3519596_37);
-Obj v__3521022_37 = PRIM_CAR(v__3520039_37);
-R[1] = v__3520039_37;
-R[2] = v__3520042_37;
+Obj v__3520997_37= co->res;
+Obj v__3519584_37 = R[1];
+Obj v__3520027_37 = v__3520997_37;
+Obj v__3520030_37 = makeNative(co->gc, 2, clofun58, 1, 2, v__3520027_37, v__3519584_37);
+Obj v__3521010_37 = PRIM_CAR(v__3520027_37);
+R[1] = v__3520027_37;
+R[2] = v__3520030_37;
 saveCont(co, clofun60, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3521022_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 65)), v__3521010_37);
 return;
 }
 }
@@ -5755,10 +5755,10 @@ static void clofun59(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519604_37 = R[1];
-Obj v__3521029_37 = makeCons(co->gc, v__3519604_37, closureRef(R[0], 1));
+Obj v__3519592_37 = R[1];
+Obj v__3521017_37 = makeCons(co->gc, v__3519592_37, closureRef(R[0], 1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v__3521029_37, closureRef(R[0], 2));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), closureRef(R[0], 0), v__3521017_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -5768,40 +5768,40 @@ static void clofun58(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520041_37 = R[1];
-if (True == v__3520041_37) {
+Obj v__3520029_37 = R[1];
+if (True == v__3520029_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 66)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3521010_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
-if (True == v__3521010_37) {
-Obj v__3521011_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3521012_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3521011_37);
-coraReturn(co, v__3521012_37);
+Obj v__3520998_37 = PRIM_EQ(closureRef(R[0], 1), globalRef(co, getBinding(co, packageID, 69)));
+if (True == v__3520998_37) {
+Obj v__3520999_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3521000_37 = makeCons(co->gc, getBinding(co, packageID, 73).name, v__3520999_37);
+coraReturn(co, v__3521000_37);
 return;
 } else {
-Obj v__3521013_37 = primGenSym(co);
-Obj v__3520043_37 = v__3521013_37;
-Obj v__3521014_37 = makeCons(co->gc, v__3520043_37, Nil);
-R[1] = v__3521014_37;
+Obj v__3521001_37 = primGenSym(co);
+Obj v__3520031_37 = v__3521001_37;
+Obj v__3521002_37 = makeCons(co->gc, v__3520031_37, Nil);
+R[1] = v__3521002_37;
 saveCont(co, clofun58, 1, R);
-coraCall1(co, closureRef(R[0], 1), v__3520043_37);
+coraCall1(co, closureRef(R[0], 1), v__3520031_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3521015_37= co->res;
-Obj v__3521014_37 = R[1];
-Obj v__3521016_37 = makeCons(co->gc, v__3521015_37, Nil);
-Obj v__3521017_37 = makeCons(co->gc, v__3521014_37, v__3521016_37);
-Obj v__3521018_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3521017_37);
-Obj v__3521019_37 = makeCons(co->gc, v__3521018_37, Nil);
-Obj v__3521020_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521019_37);
-Obj v__3521021_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521020_37);
-coraReturn(co, v__3521021_37);
+Obj v__3521003_37= co->res;
+Obj v__3521002_37 = R[1];
+Obj v__3521004_37 = makeCons(co->gc, v__3521003_37, Nil);
+Obj v__3521005_37 = makeCons(co->gc, v__3521002_37, v__3521004_37);
+Obj v__3521006_37 = makeCons(co->gc, getBinding(co, packageID, 74).name, v__3521005_37);
+Obj v__3521007_37 = makeCons(co->gc, v__3521006_37, Nil);
+Obj v__3521008_37 = makeCons(co->gc, closureRef(R[0], 0), v__3521007_37);
+Obj v__3521009_37 = makeCons(co->gc, getBinding(co, packageID, 72).name, v__3521008_37);
+coraReturn(co, v__3521009_37);
 return;
 }
 }
@@ -5811,32 +5811,32 @@ static void clofun57(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519532_37 = R[1];
-Obj v__3519533_37 = R[2];
-Obj v__3520021_37 = makeNative(co->gc, 2, clofun56, 1, 2, v__3519532_37, v__3519533_37);
-Obj v__3521005_37 = primIsSymbol(v__3519532_37);
-if (True == v__3521005_37) {
+Obj v__3519520_37 = R[1];
+Obj v__3519521_37 = R[2];
+Obj v__3520009_37 = makeNative(co->gc, 2, clofun56, 1, 2, v__3519520_37, v__3519521_37);
+Obj v__3520993_37 = primIsSymbol(v__3519520_37);
+if (True == v__3520993_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3520021_37, True);
+coraCall1(co, v__3520009_37, True);
 return;
 } else {
-R[1] = v__3520021_37;
+R[1] = v__3520009_37;
 saveCont(co, clofun57, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519532_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519520_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3521006_37= co->res;
-Obj v__3520021_37 = R[1];
-if (True == v__3521006_37) {
+Obj v__3520994_37= co->res;
+Obj v__3520009_37 = R[1];
+if (True == v__3520994_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3520021_37, True);
+coraCall1(co, v__3520009_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3520021_37, False);
+coraCall1(co, v__3520009_37, False);
 return;
 }
 }
@@ -5847,8 +5847,8 @@ static void clofun56(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520020_37 = R[1];
-if (True == v__3520020_37) {
+Obj v__3520008_37 = R[1];
+if (True == v__3520008_37) {
 co->ctx.sp = R;
 coraCall1(co, closureRef(R[0], 1), closureRef(R[0], 0));
 return;
@@ -5860,78 +5860,78 @@ return;
 }
 case 1:
 {
-Obj v__3520871_37= co->res;
-if (True == v__3520871_37) {
+Obj v__3520859_37= co->res;
+if (True == v__3520859_37) {
 coraReturn(co, closureRef(R[0], 0));
 return;
 } else {
-Obj v__3520022_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520973_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520973_37) {
-Obj v__3520974_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520975_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520974_37);
-if (True == v__3520975_37) {
-Obj v__3520976_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520010_37 = makeNative(co->gc, 1, clofun54, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520961_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520961_37) {
+Obj v__3520962_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520963_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520962_37);
+if (True == v__3520963_37) {
+Obj v__3520964_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520965_37 = PRIM_ISCONS(v__3520964_37);
+if (True == v__3520965_37) {
+Obj v__3520966_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520967_37 = PRIM_CAR(v__3520966_37);
+Obj v__3520024_37 = v__3520967_37;
+Obj v__3520968_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520969_37 = PRIM_CDR(v__3520968_37);
+Obj v__3520970_37 = PRIM_ISCONS(v__3520969_37);
+if (True == v__3520970_37) {
+Obj v__3520971_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520972_37 = PRIM_CDR(v__3520971_37);
+Obj v__3520973_37 = PRIM_CAR(v__3520972_37);
+Obj v__3520025_37 = v__3520973_37;
+Obj v__3520974_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520975_37 = PRIM_CDR(v__3520974_37);
+Obj v__3520976_37 = PRIM_CDR(v__3520975_37);
 Obj v__3520977_37 = PRIM_ISCONS(v__3520976_37);
 if (True == v__3520977_37) {
 Obj v__3520978_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520979_37 = PRIM_CAR(v__3520978_37);
-Obj v__3520036_37 = v__3520979_37;
-Obj v__3520980_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520981_37 = PRIM_CDR(v__3520980_37);
-Obj v__3520982_37 = PRIM_ISCONS(v__3520981_37);
-if (True == v__3520982_37) {
-Obj v__3520983_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520979_37 = PRIM_CDR(v__3520978_37);
+Obj v__3520980_37 = PRIM_CDR(v__3520979_37);
+Obj v__3520981_37 = PRIM_CAR(v__3520980_37);
+Obj v__3520026_37 = v__3520981_37;
+Obj v__3520982_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520983_37 = PRIM_CDR(v__3520982_37);
 Obj v__3520984_37 = PRIM_CDR(v__3520983_37);
-Obj v__3520985_37 = PRIM_CAR(v__3520984_37);
-Obj v__3520037_37 = v__3520985_37;
-Obj v__3520986_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520987_37 = PRIM_CDR(v__3520986_37);
-Obj v__3520988_37 = PRIM_CDR(v__3520987_37);
-Obj v__3520989_37 = PRIM_ISCONS(v__3520988_37);
-if (True == v__3520989_37) {
-Obj v__3520990_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520991_37 = PRIM_CDR(v__3520990_37);
-Obj v__3520992_37 = PRIM_CDR(v__3520991_37);
-Obj v__3520993_37 = PRIM_CAR(v__3520992_37);
-Obj v__3520038_37 = v__3520993_37;
-Obj v__3520994_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520995_37 = PRIM_CDR(v__3520994_37);
-Obj v__3520996_37 = PRIM_CDR(v__3520995_37);
-Obj v__3520997_37 = PRIM_CDR(v__3520996_37);
-Obj v__3520998_37 = PRIM_EQ(Nil, v__3520997_37);
-if (True == v__3520998_37) {
+Obj v__3520985_37 = PRIM_CDR(v__3520984_37);
+Obj v__3520986_37 = PRIM_EQ(Nil, v__3520985_37);
+if (True == v__3520986_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520036_37, makeNative(co->gc, 3, clofun55, 1, 3, v__3520037_37, v__3520038_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520024_37, makeNative(co->gc, 3, clofun55, 1, 3, v__3520025_37, v__3520026_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520022_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520022_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520022_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520022_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520022_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520022_37);
+coraCall0(co, v__3520010_37);
 return;
 }
 }
@@ -5943,30 +5943,30 @@ static void clofun55(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519593_37 = R[1];
-R[1] = v__3519593_37;
+Obj v__3519581_37 = R[1];
+R[1] = v__3519581_37;
 saveCont(co, clofun55, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3521000_37= co->res;
-Obj v__3520999_37 = R[1];
-Obj v__3519593_37 = R[2];
-Obj v__3521001_37 = makeCons(co->gc, v__3521000_37, Nil);
-Obj v__3521002_37 = makeCons(co->gc, v__3520999_37, v__3521001_37);
-Obj v__3521003_37 = makeCons(co->gc, v__3519593_37, v__3521002_37);
-Obj v__3521004_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3521003_37);
-coraReturn(co, v__3521004_37);
+Obj v__3520988_37= co->res;
+Obj v__3520987_37 = R[1];
+Obj v__3519581_37 = R[2];
+Obj v__3520989_37 = makeCons(co->gc, v__3520988_37, Nil);
+Obj v__3520990_37 = makeCons(co->gc, v__3520987_37, v__3520989_37);
+Obj v__3520991_37 = makeCons(co->gc, v__3519581_37, v__3520990_37);
+Obj v__3520992_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520991_37);
+coraReturn(co, v__3520992_37);
 return;
 }
 case 2:
 {
-Obj v__3520999_37= co->res;
-Obj v__3519593_37 = R[1];
-R[1] = v__3520999_37;
-R[2] = v__3519593_37;
+Obj v__3520987_37= co->res;
+Obj v__3519581_37 = R[1];
+R[1] = v__3520987_37;
+R[2] = v__3519581_37;
 saveCont(co, clofun55, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
@@ -5978,57 +5978,57 @@ static void clofun54(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520023_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520951_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520951_37) {
-Obj v__3520952_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520953_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520952_37);
-if (True == v__3520953_37) {
-Obj v__3520954_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520955_37 = PRIM_ISCONS(v__3520954_37);
+Obj v__3520011_37 = makeNative(co->gc, 1, clofun52, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520939_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520939_37) {
+Obj v__3520940_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520941_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520940_37);
+if (True == v__3520941_37) {
+Obj v__3520942_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520943_37 = PRIM_ISCONS(v__3520942_37);
+if (True == v__3520943_37) {
+Obj v__3520944_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520945_37 = PRIM_CAR(v__3520944_37);
+Obj v__3520022_37 = v__3520945_37;
+Obj v__3520946_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520947_37 = PRIM_CDR(v__3520946_37);
+Obj v__3520948_37 = PRIM_ISCONS(v__3520947_37);
+if (True == v__3520948_37) {
+Obj v__3520949_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520950_37 = PRIM_CDR(v__3520949_37);
+Obj v__3520951_37 = PRIM_CAR(v__3520950_37);
+Obj v__3520023_37 = v__3520951_37;
+Obj v__3520952_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520953_37 = PRIM_CDR(v__3520952_37);
+Obj v__3520954_37 = PRIM_CDR(v__3520953_37);
+Obj v__3520955_37 = PRIM_EQ(Nil, v__3520954_37);
 if (True == v__3520955_37) {
-Obj v__3520956_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520957_37 = PRIM_CAR(v__3520956_37);
-Obj v__3520034_37 = v__3520957_37;
-Obj v__3520958_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520959_37 = PRIM_CDR(v__3520958_37);
-Obj v__3520960_37 = PRIM_ISCONS(v__3520959_37);
-if (True == v__3520960_37) {
-Obj v__3520961_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520962_37 = PRIM_CDR(v__3520961_37);
-Obj v__3520963_37 = PRIM_CAR(v__3520962_37);
-Obj v__3520035_37 = v__3520963_37;
-Obj v__3520964_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520965_37 = PRIM_CDR(v__3520964_37);
-Obj v__3520966_37 = PRIM_CDR(v__3520965_37);
-Obj v__3520967_37 = PRIM_EQ(Nil, v__3520966_37);
-if (True == v__3520967_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520034_37, makeNative(co->gc, 2, clofun53, 1, 2, v__3520035_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520022_37, makeNative(co->gc, 2, clofun53, 1, 2, v__3520023_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520023_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520023_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520023_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520023_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520023_37);
+coraCall0(co, v__3520011_37);
 return;
 }
 }
@@ -6039,14 +6039,14 @@ static void clofun53(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519588_37 = R[1];
-Obj v__3520968_37 = primIsSymbol(v__3519588_37);
-if (True == v__3520968_37) {
+Obj v__3519576_37 = R[1];
+Obj v__3520956_37 = primIsSymbol(v__3519576_37);
+if (True == v__3520956_37) {
 co->ctx.sp = R;
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-R[1] = v__3519588_37;
+R[1] = v__3519576_37;
 saveCont(co, clofun53, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
@@ -6054,12 +6054,12 @@ return;
 }
 case 1:
 {
-Obj v__3520969_37= co->res;
-Obj v__3519588_37 = R[1];
-Obj v__3520970_37 = makeCons(co->gc, v__3520969_37, Nil);
-Obj v__3520971_37 = makeCons(co->gc, v__3519588_37, v__3520970_37);
-Obj v__3520972_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520971_37);
-coraReturn(co, v__3520972_37);
+Obj v__3520957_37= co->res;
+Obj v__3519576_37 = R[1];
+Obj v__3520958_37 = makeCons(co->gc, v__3520957_37, Nil);
+Obj v__3520959_37 = makeCons(co->gc, v__3519576_37, v__3520958_37);
+Obj v__3520960_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520959_37);
+coraReturn(co, v__3520960_37);
 return;
 }
 }
@@ -6069,73 +6069,73 @@ static void clofun52(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520024_37 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520920_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520920_37) {
-Obj v__3520921_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520922_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520921_37);
-if (True == v__3520922_37) {
-Obj v__3520923_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520012_37 = makeNative(co->gc, 3, clofun50, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520908_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520908_37) {
+Obj v__3520909_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520910_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520909_37);
+if (True == v__3520910_37) {
+Obj v__3520911_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520912_37 = PRIM_ISCONS(v__3520911_37);
+if (True == v__3520912_37) {
+Obj v__3520913_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520914_37 = PRIM_CAR(v__3520913_37);
+Obj v__3520019_37 = v__3520914_37;
+Obj v__3520915_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520916_37 = PRIM_CDR(v__3520915_37);
+Obj v__3520917_37 = PRIM_ISCONS(v__3520916_37);
+if (True == v__3520917_37) {
+Obj v__3520918_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520919_37 = PRIM_CDR(v__3520918_37);
+Obj v__3520920_37 = PRIM_CAR(v__3520919_37);
+Obj v__3520020_37 = v__3520920_37;
+Obj v__3520921_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520922_37 = PRIM_CDR(v__3520921_37);
+Obj v__3520923_37 = PRIM_CDR(v__3520922_37);
 Obj v__3520924_37 = PRIM_ISCONS(v__3520923_37);
 if (True == v__3520924_37) {
 Obj v__3520925_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520926_37 = PRIM_CAR(v__3520925_37);
-Obj v__3520031_37 = v__3520926_37;
-Obj v__3520927_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520928_37 = PRIM_CDR(v__3520927_37);
-Obj v__3520929_37 = PRIM_ISCONS(v__3520928_37);
-if (True == v__3520929_37) {
-Obj v__3520930_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520926_37 = PRIM_CDR(v__3520925_37);
+Obj v__3520927_37 = PRIM_CDR(v__3520926_37);
+Obj v__3520928_37 = PRIM_CAR(v__3520927_37);
+Obj v__3520021_37 = v__3520928_37;
+Obj v__3520929_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520930_37 = PRIM_CDR(v__3520929_37);
 Obj v__3520931_37 = PRIM_CDR(v__3520930_37);
-Obj v__3520932_37 = PRIM_CAR(v__3520931_37);
-Obj v__3520032_37 = v__3520932_37;
-Obj v__3520933_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520934_37 = PRIM_CDR(v__3520933_37);
-Obj v__3520935_37 = PRIM_CDR(v__3520934_37);
-Obj v__3520936_37 = PRIM_ISCONS(v__3520935_37);
-if (True == v__3520936_37) {
-Obj v__3520937_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520938_37 = PRIM_CDR(v__3520937_37);
-Obj v__3520939_37 = PRIM_CDR(v__3520938_37);
-Obj v__3520940_37 = PRIM_CAR(v__3520939_37);
-Obj v__3520033_37 = v__3520940_37;
-Obj v__3520941_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520942_37 = PRIM_CDR(v__3520941_37);
-Obj v__3520943_37 = PRIM_CDR(v__3520942_37);
-Obj v__3520944_37 = PRIM_CDR(v__3520943_37);
-Obj v__3520945_37 = PRIM_EQ(Nil, v__3520944_37);
-if (True == v__3520945_37) {
+Obj v__3520932_37 = PRIM_CDR(v__3520931_37);
+Obj v__3520933_37 = PRIM_EQ(Nil, v__3520932_37);
+if (True == v__3520933_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520032_37, makeNative(co->gc, 2, clofun51, 1, 3, v__3520031_37, v__3520033_37, closureRef(R[0], 1)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520020_37, makeNative(co->gc, 2, clofun51, 1, 3, v__3520019_37, v__3520021_37, closureRef(R[0], 1)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520024_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520024_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520024_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520024_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520024_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520024_37);
+coraCall0(co, v__3520012_37);
 return;
 }
 }
@@ -6146,21 +6146,21 @@ static void clofun51(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519584_37 = R[1];
-R[1] = v__3519584_37;
+Obj v__3519572_37 = R[1];
+R[1] = v__3519572_37;
 saveCont(co, clofun51, 1, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 }
 case 1:
 {
-Obj v__3520946_37= co->res;
-Obj v__3519584_37 = R[1];
-Obj v__3520947_37 = makeCons(co->gc, v__3520946_37, Nil);
-Obj v__3520948_37 = makeCons(co->gc, v__3519584_37, v__3520947_37);
-Obj v__3520949_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520948_37);
-Obj v__3520950_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520949_37);
-coraReturn(co, v__3520950_37);
+Obj v__3520934_37= co->res;
+Obj v__3519572_37 = R[1];
+Obj v__3520935_37 = makeCons(co->gc, v__3520934_37, Nil);
+Obj v__3520936_37 = makeCons(co->gc, v__3519572_37, v__3520935_37);
+Obj v__3520937_37 = makeCons(co->gc, closureRef(R[0], 0), v__3520936_37);
+Obj v__3520938_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520937_37);
+coraReturn(co, v__3520938_37);
 return;
 }
 }
@@ -6170,114 +6170,114 @@ static void clofun50(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520025_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520876_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520876_37) {
-Obj v__3520877_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520878_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520877_37);
-if (True == v__3520878_37) {
-Obj v__3520879_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520880_37 = PRIM_ISCONS(v__3520879_37);
-if (True == v__3520880_37) {
-Obj v__3520881_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520882_37 = PRIM_CAR(v__3520881_37);
-Obj v__3520883_37 = PRIM_ISCONS(v__3520882_37);
-if (True == v__3520883_37) {
+Obj v__3520013_37 = makeNative(co->gc, 1, clofun49, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520864_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520864_37) {
+Obj v__3520865_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520866_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520865_37);
+if (True == v__3520866_37) {
+Obj v__3520867_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520868_37 = PRIM_ISCONS(v__3520867_37);
+if (True == v__3520868_37) {
+Obj v__3520869_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520870_37 = PRIM_CAR(v__3520869_37);
+Obj v__3520871_37 = PRIM_ISCONS(v__3520870_37);
+if (True == v__3520871_37) {
+Obj v__3520872_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520873_37 = PRIM_CAR(v__3520872_37);
+Obj v__3520874_37 = PRIM_CAR(v__3520873_37);
+Obj v__3520875_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520874_37);
+if (True == v__3520875_37) {
+Obj v__3520876_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520877_37 = PRIM_CAR(v__3520876_37);
+Obj v__3520878_37 = PRIM_CDR(v__3520877_37);
+Obj v__3520879_37 = PRIM_ISCONS(v__3520878_37);
+if (True == v__3520879_37) {
+Obj v__3520880_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520881_37 = PRIM_CAR(v__3520880_37);
+Obj v__3520882_37 = PRIM_CDR(v__3520881_37);
+Obj v__3520883_37 = PRIM_CAR(v__3520882_37);
+Obj v__3520016_37 = v__3520883_37;
 Obj v__3520884_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3520885_37 = PRIM_CAR(v__3520884_37);
-Obj v__3520886_37 = PRIM_CAR(v__3520885_37);
-Obj v__3520887_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520886_37);
-if (True == v__3520887_37) {
-Obj v__3520888_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520889_37 = PRIM_CAR(v__3520888_37);
-Obj v__3520890_37 = PRIM_CDR(v__3520889_37);
-Obj v__3520891_37 = PRIM_ISCONS(v__3520890_37);
-if (True == v__3520891_37) {
-Obj v__3520892_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520886_37 = PRIM_CDR(v__3520885_37);
+Obj v__3520887_37 = PRIM_CDR(v__3520886_37);
+Obj v__3520888_37 = PRIM_ISCONS(v__3520887_37);
+if (True == v__3520888_37) {
+Obj v__3520889_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520890_37 = PRIM_CAR(v__3520889_37);
+Obj v__3520891_37 = PRIM_CDR(v__3520890_37);
+Obj v__3520892_37 = PRIM_CDR(v__3520891_37);
 Obj v__3520893_37 = PRIM_CAR(v__3520892_37);
-Obj v__3520894_37 = PRIM_CDR(v__3520893_37);
+Obj v__3520017_37 = v__3520893_37;
+Obj v__3520894_37 = PRIM_CDR(closureRef(R[0], 0));
 Obj v__3520895_37 = PRIM_CAR(v__3520894_37);
-Obj v__3520028_37 = v__3520895_37;
-Obj v__3520896_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520897_37 = PRIM_CAR(v__3520896_37);
+Obj v__3520896_37 = PRIM_CDR(v__3520895_37);
+Obj v__3520897_37 = PRIM_CDR(v__3520896_37);
 Obj v__3520898_37 = PRIM_CDR(v__3520897_37);
-Obj v__3520899_37 = PRIM_CDR(v__3520898_37);
-Obj v__3520900_37 = PRIM_ISCONS(v__3520899_37);
-if (True == v__3520900_37) {
-Obj v__3520901_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520902_37 = PRIM_CAR(v__3520901_37);
-Obj v__3520903_37 = PRIM_CDR(v__3520902_37);
-Obj v__3520904_37 = PRIM_CDR(v__3520903_37);
-Obj v__3520905_37 = PRIM_CAR(v__3520904_37);
-Obj v__3520029_37 = v__3520905_37;
-Obj v__3520906_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520907_37 = PRIM_CAR(v__3520906_37);
-Obj v__3520908_37 = PRIM_CDR(v__3520907_37);
-Obj v__3520909_37 = PRIM_CDR(v__3520908_37);
-Obj v__3520910_37 = PRIM_CDR(v__3520909_37);
-Obj v__3520911_37 = PRIM_EQ(Nil, v__3520910_37);
-if (True == v__3520911_37) {
-Obj v__3520912_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520913_37 = PRIM_CDR(v__3520912_37);
-Obj v__3520030_37 = v__3520913_37;
-R[1] = v__3520028_37;
-R[2] = v__3520030_37;
+Obj v__3520899_37 = PRIM_EQ(Nil, v__3520898_37);
+if (True == v__3520899_37) {
+Obj v__3520900_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520901_37 = PRIM_CDR(v__3520900_37);
+Obj v__3520018_37 = v__3520901_37;
+R[1] = v__3520016_37;
+R[2] = v__3520018_37;
 saveCont(co, clofun50, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520029_37, globalRef(co, getBinding(co, packageID, 69)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 68)), v__3520017_37, globalRef(co, getBinding(co, packageID, 69)));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520025_37);
+coraCall0(co, v__3520013_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520914_37= co->res;
-Obj v__3520028_37 = R[1];
-Obj v__3520030_37 = R[2];
-Obj v__3520915_37 = makeCons(co->gc, v__3520914_37, Nil);
-Obj v__3520916_37 = makeCons(co->gc, v__3520028_37, v__3520915_37);
-Obj v__3520917_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520916_37);
-Obj v__3520918_37 = makeCons(co->gc, v__3520917_37, v__3520030_37);
-Obj v__3520919_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520918_37);
+Obj v__3520902_37= co->res;
+Obj v__3520016_37 = R[1];
+Obj v__3520018_37 = R[2];
+Obj v__3520903_37 = makeCons(co->gc, v__3520902_37, Nil);
+Obj v__3520904_37 = makeCons(co->gc, v__3520016_37, v__3520903_37);
+Obj v__3520905_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520904_37);
+Obj v__3520906_37 = makeCons(co->gc, v__3520905_37, v__3520018_37);
+Obj v__3520907_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520906_37);
 co->ctx.sp = R;
-coraCall1(co, closureRef(R[0], 1), v__3520919_37);
+coraCall1(co, closureRef(R[0], 1), v__3520907_37);
 return;
 }
 }
@@ -6287,15 +6287,15 @@ static void clofun49(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520872_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520872_37) {
-Obj v__3520873_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520026_37 = v__3520873_37;
-Obj v__3520874_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520027_37 = v__3520874_37;
-Obj v__3520875_37 = makeCons(co->gc, v__3520026_37, v__3520027_37);
+Obj v__3520860_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520860_37) {
+Obj v__3520861_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520014_37 = v__3520861_37;
+Obj v__3520862_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520015_37 = v__3520862_37;
+Obj v__3520863_37 = makeCons(co->gc, v__3520014_37, v__3520015_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v__3520875_37, Nil, closureRef(R[0], 1));
+coraCall3(co, globalRef(co, getBinding(co, packageID, 67)), v__3520863_37, Nil, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -6310,10 +6310,10 @@ static void clofun48(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519531_37 = R[1];
-Obj v__3520868_37 = makeCons(co->gc, v__3519531_37, Nil);
-Obj v__3520869_37 = makeCons(co->gc, getBinding(co, packageID, 71).name, v__3520868_37);
-coraReturn(co, v__3520869_37);
+Obj v__3519519_37 = R[1];
+Obj v__3520856_37 = makeCons(co->gc, v__3519519_37, Nil);
+Obj v__3520857_37 = makeCons(co->gc, getBinding(co, packageID, 71).name, v__3520856_37);
+coraReturn(co, v__3520857_37);
 return;
 }
 }
@@ -6323,151 +6323,151 @@ static void clofun47(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519497_37 = R[1];
-Obj v__3519498_37 = R[2];
-R[1] = v__3519498_37;
-R[2] = v__3519497_37;
+Obj v__3519485_37 = R[1];
+Obj v__3519486_37 = R[2];
+R[1] = v__3519486_37;
+R[2] = v__3519485_37;
 saveCont(co, clofun47, 6, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519498_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519486_37);
 return;
 }
 case 1:
 {
-Obj v__3520797_37= co->res;
-Obj v__3519498_37 = R[1];
-Obj v__3520008_37 = v__3520797_37;
-Obj v__3520798_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3520008_37);
-if (True == v__3520798_37) {
-coraReturn(co, v__3519498_37);
+Obj v__3520785_37= co->res;
+Obj v__3519486_37 = R[1];
+Obj v__3519996_37 = v__3520785_37;
+Obj v__3520786_37 = PRIM_EQ(MAKE_NUMBER(-1), v__3519996_37);
+if (True == v__3520786_37) {
+coraReturn(co, v__3519486_37);
 return;
 } else {
-Obj v__3520799_37 = makeCons(co->gc, v__3520008_37, Nil);
-Obj v__3520800_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3520799_37);
-coraReturn(co, v__3520800_37);
+Obj v__3520787_37 = makeCons(co->gc, v__3519996_37, Nil);
+Obj v__3520788_37 = makeCons(co->gc, getBinding(co, packageID, 76).name, v__3520787_37);
+coraReturn(co, v__3520788_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520864_37= co->res;
-Obj v__3520862_37 = R[1];
-Obj v__3520865_37 = makeCons(co->gc, v__3520862_37, v__3520864_37);
-Obj v__3520866_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520865_37);
-coraReturn(co, v__3520866_37);
+Obj v__3520852_37= co->res;
+Obj v__3520850_37 = R[1];
+Obj v__3520853_37 = makeCons(co->gc, v__3520850_37, v__3520852_37);
+Obj v__3520854_37 = makeCons(co->gc, getBinding(co, packageID, 77).name, v__3520853_37);
+coraReturn(co, v__3520854_37);
 return;
 }
 case 3:
 {
-Obj v__3520863_37= co->res;
-Obj v__3520018_37 = R[1];
-Obj v__3520862_37 = R[2];
-R[1] = v__3520862_37;
+Obj v__3520851_37= co->res;
+Obj v__3520006_37 = R[1];
+Obj v__3520850_37 = R[2];
+R[1] = v__3520850_37;
 saveCont(co, clofun47, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520863_37, v__3520018_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520851_37, v__3520006_37);
 return;
 }
 case 4:
 {
-Obj v__3520859_37= co->res;
-Obj v__3520016_37 = R[1];
-Obj v__3519497_37 = R[2];
-Obj v__3520018_37 = R[3];
-Obj v__3520860_37 = makeCons(co->gc, v__3520859_37, Nil);
-Obj v__3520861_37 = makeCons(co->gc, v__3520016_37, v__3520860_37);
-Obj v__3520862_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520861_37);
-R[1] = v__3520018_37;
-R[2] = v__3520862_37;
+Obj v__3520847_37= co->res;
+Obj v__3520004_37 = R[1];
+Obj v__3519485_37 = R[2];
+Obj v__3520006_37 = R[3];
+Obj v__3520848_37 = makeCons(co->gc, v__3520847_37, Nil);
+Obj v__3520849_37 = makeCons(co->gc, v__3520004_37, v__3520848_37);
+Obj v__3520850_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520849_37);
+R[1] = v__3520006_37;
+R[2] = v__3520850_37;
 saveCont(co, clofun47, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v__3519497_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), v__3519485_37);
 return;
 }
 case 5:
 {
-Obj v__3520858_37= co->res;
-Obj v__3520017_37 = R[1];
-Obj v__3520016_37 = R[2];
-Obj v__3519497_37 = R[3];
-Obj v__3520018_37 = v__3520858_37;
-R[1] = v__3520016_37;
-R[2] = v__3519497_37;
-R[3] = v__3520018_37;
+Obj v__3520846_37= co->res;
+Obj v__3520005_37 = R[1];
+Obj v__3520004_37 = R[2];
+Obj v__3519485_37 = R[3];
+Obj v__3520006_37 = v__3520846_37;
+R[1] = v__3520004_37;
+R[2] = v__3519485_37;
+R[3] = v__3520006_37;
 saveCont(co, clofun47, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3520018_37, v__3520017_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), v__3520006_37, v__3520005_37);
 return;
 }
 case 6:
 {
-Obj v__3520795_37= co->res;
-Obj v__3519498_37 = R[1];
-Obj v__3519497_37 = R[2];
-if (True == v__3520795_37) {
-coraReturn(co, v__3519498_37);
+Obj v__3520783_37= co->res;
+Obj v__3519486_37 = R[1];
+Obj v__3519485_37 = R[2];
+if (True == v__3520783_37) {
+coraReturn(co, v__3519486_37);
 return;
 } else {
-Obj v__3520796_37 = primIsSymbol(v__3519498_37);
-if (True == v__3520796_37) {
-R[1] = v__3519498_37;
+Obj v__3520784_37 = primIsSymbol(v__3519486_37);
+if (True == v__3520784_37) {
+R[1] = v__3519486_37;
 saveCont(co, clofun47, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3519498_37, v__3519497_37);
-return;
-} else {
-Obj v__3520009_37 = makeNative(co->gc, 3, clofun46, 0, 2, v__3519498_37, v__3519497_37);
-Obj v__3520838_37 = PRIM_ISCONS(v__3519498_37);
-if (True == v__3520838_37) {
-Obj v__3520839_37 = PRIM_CAR(v__3519498_37);
-Obj v__3520840_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520839_37);
-if (True == v__3520840_37) {
-Obj v__3520841_37 = PRIM_CDR(v__3519498_37);
-Obj v__3520842_37 = PRIM_ISCONS(v__3520841_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3519486_37, v__3519485_37);
+return;
+} else {
+Obj v__3519997_37 = makeNative(co->gc, 3, clofun46, 0, 2, v__3519486_37, v__3519485_37);
+Obj v__3520826_37 = PRIM_ISCONS(v__3519486_37);
+if (True == v__3520826_37) {
+Obj v__3520827_37 = PRIM_CAR(v__3519486_37);
+Obj v__3520828_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520827_37);
+if (True == v__3520828_37) {
+Obj v__3520829_37 = PRIM_CDR(v__3519486_37);
+Obj v__3520830_37 = PRIM_ISCONS(v__3520829_37);
+if (True == v__3520830_37) {
+Obj v__3520831_37 = PRIM_CDR(v__3519486_37);
+Obj v__3520832_37 = PRIM_CAR(v__3520831_37);
+Obj v__3520004_37 = v__3520832_37;
+Obj v__3520833_37 = PRIM_CDR(v__3519486_37);
+Obj v__3520834_37 = PRIM_CDR(v__3520833_37);
+Obj v__3520835_37 = PRIM_ISCONS(v__3520834_37);
+if (True == v__3520835_37) {
+Obj v__3520836_37 = PRIM_CDR(v__3519486_37);
+Obj v__3520837_37 = PRIM_CDR(v__3520836_37);
+Obj v__3520838_37 = PRIM_CAR(v__3520837_37);
+Obj v__3520005_37 = v__3520838_37;
+Obj v__3520839_37 = PRIM_CDR(v__3519486_37);
+Obj v__3520840_37 = PRIM_CDR(v__3520839_37);
+Obj v__3520841_37 = PRIM_CDR(v__3520840_37);
+Obj v__3520842_37 = PRIM_EQ(Nil, v__3520841_37);
 if (True == v__3520842_37) {
-Obj v__3520843_37 = PRIM_CDR(v__3519498_37);
-Obj v__3520844_37 = PRIM_CAR(v__3520843_37);
-Obj v__3520016_37 = v__3520844_37;
-Obj v__3520845_37 = PRIM_CDR(v__3519498_37);
-Obj v__3520846_37 = PRIM_CDR(v__3520845_37);
-Obj v__3520847_37 = PRIM_ISCONS(v__3520846_37);
-if (True == v__3520847_37) {
-Obj v__3520848_37 = PRIM_CDR(v__3519498_37);
-Obj v__3520849_37 = PRIM_CDR(v__3520848_37);
-Obj v__3520850_37 = PRIM_CAR(v__3520849_37);
-Obj v__3520017_37 = v__3520850_37;
-Obj v__3520851_37 = PRIM_CDR(v__3519498_37);
-Obj v__3520852_37 = PRIM_CDR(v__3520851_37);
-Obj v__3520853_37 = PRIM_CDR(v__3520852_37);
-Obj v__3520854_37 = PRIM_EQ(Nil, v__3520853_37);
-if (True == v__3520854_37) {
-Obj v__3520855_37 = makeCons(co->gc, v__3520017_37, Nil);
-Obj v__3520856_37 = makeCons(co->gc, v__3520016_37, v__3520855_37);
-Obj v__3520857_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520856_37);
-R[1] = v__3520017_37;
-R[2] = v__3520016_37;
-R[3] = v__3519497_37;
+Obj v__3520843_37 = makeCons(co->gc, v__3520005_37, Nil);
+Obj v__3520844_37 = makeCons(co->gc, v__3520004_37, v__3520843_37);
+Obj v__3520845_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520844_37);
+R[1] = v__3520005_37;
+R[2] = v__3520004_37;
+R[3] = v__3519485_37;
 saveCont(co, clofun47, 5, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520857_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520845_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520009_37);
+coraCall0(co, v__3519997_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520009_37);
+coraCall0(co, v__3519997_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520009_37);
+coraCall0(co, v__3519997_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520009_37);
+coraCall0(co, v__3519997_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520009_37);
+coraCall0(co, v__3519997_37);
 return;
 }
 }
@@ -6480,99 +6480,99 @@ static void clofun46(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520010_37 = makeNative(co->gc, 3, clofun45, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
-Obj v__3520806_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520806_37) {
-Obj v__3520807_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520808_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520807_37);
-if (True == v__3520808_37) {
-Obj v__3520809_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519998_37 = makeNative(co->gc, 3, clofun45, 0, 2, closureRef(R[0], 0), closureRef(R[0], 1));
+Obj v__3520794_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520794_37) {
+Obj v__3520795_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520796_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520795_37);
+if (True == v__3520796_37) {
+Obj v__3520797_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520798_37 = PRIM_ISCONS(v__3520797_37);
+if (True == v__3520798_37) {
+Obj v__3520799_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520800_37 = PRIM_CAR(v__3520799_37);
+Obj v__3520001_37 = v__3520800_37;
+Obj v__3520801_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520802_37 = PRIM_CDR(v__3520801_37);
+Obj v__3520803_37 = PRIM_ISCONS(v__3520802_37);
+if (True == v__3520803_37) {
+Obj v__3520804_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520805_37 = PRIM_CDR(v__3520804_37);
+Obj v__3520806_37 = PRIM_CAR(v__3520805_37);
+Obj v__3520002_37 = v__3520806_37;
+Obj v__3520807_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520808_37 = PRIM_CDR(v__3520807_37);
+Obj v__3520809_37 = PRIM_CDR(v__3520808_37);
 Obj v__3520810_37 = PRIM_ISCONS(v__3520809_37);
 if (True == v__3520810_37) {
 Obj v__3520811_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520812_37 = PRIM_CAR(v__3520811_37);
-Obj v__3520013_37 = v__3520812_37;
-Obj v__3520813_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520814_37 = PRIM_CDR(v__3520813_37);
-Obj v__3520815_37 = PRIM_ISCONS(v__3520814_37);
-if (True == v__3520815_37) {
-Obj v__3520816_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520812_37 = PRIM_CDR(v__3520811_37);
+Obj v__3520813_37 = PRIM_CDR(v__3520812_37);
+Obj v__3520814_37 = PRIM_CAR(v__3520813_37);
+Obj v__3520003_37 = v__3520814_37;
+Obj v__3520815_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520816_37 = PRIM_CDR(v__3520815_37);
 Obj v__3520817_37 = PRIM_CDR(v__3520816_37);
-Obj v__3520818_37 = PRIM_CAR(v__3520817_37);
-Obj v__3520014_37 = v__3520818_37;
-Obj v__3520819_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520820_37 = PRIM_CDR(v__3520819_37);
-Obj v__3520821_37 = PRIM_CDR(v__3520820_37);
-Obj v__3520822_37 = PRIM_ISCONS(v__3520821_37);
-if (True == v__3520822_37) {
-Obj v__3520823_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520824_37 = PRIM_CDR(v__3520823_37);
-Obj v__3520825_37 = PRIM_CDR(v__3520824_37);
-Obj v__3520826_37 = PRIM_CAR(v__3520825_37);
-Obj v__3520015_37 = v__3520826_37;
-Obj v__3520827_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520828_37 = PRIM_CDR(v__3520827_37);
-Obj v__3520829_37 = PRIM_CDR(v__3520828_37);
-Obj v__3520830_37 = PRIM_CDR(v__3520829_37);
-Obj v__3520831_37 = PRIM_EQ(Nil, v__3520830_37);
-if (True == v__3520831_37) {
-R[1] = v__3520015_37;
-R[2] = v__3520013_37;
+Obj v__3520818_37 = PRIM_CDR(v__3520817_37);
+Obj v__3520819_37 = PRIM_EQ(Nil, v__3520818_37);
+if (True == v__3520819_37) {
+R[1] = v__3520003_37;
+R[2] = v__3520001_37;
 saveCont(co, clofun46, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v__3520014_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v__3520002_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520010_37);
+coraCall0(co, v__3519998_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520010_37);
+coraCall0(co, v__3519998_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520010_37);
+coraCall0(co, v__3519998_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520010_37);
+coraCall0(co, v__3519998_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520010_37);
+coraCall0(co, v__3519998_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3520010_37);
+coraCall0(co, v__3519998_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520833_37= co->res;
-Obj v__3520832_37 = R[1];
-Obj v__3520013_37 = R[2];
-Obj v__3520834_37 = makeCons(co->gc, v__3520833_37, Nil);
-Obj v__3520835_37 = makeCons(co->gc, v__3520832_37, v__3520834_37);
-Obj v__3520836_37 = makeCons(co->gc, v__3520013_37, v__3520835_37);
-Obj v__3520837_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520836_37);
-coraReturn(co, v__3520837_37);
+Obj v__3520821_37= co->res;
+Obj v__3520820_37 = R[1];
+Obj v__3520001_37 = R[2];
+Obj v__3520822_37 = makeCons(co->gc, v__3520821_37, Nil);
+Obj v__3520823_37 = makeCons(co->gc, v__3520820_37, v__3520822_37);
+Obj v__3520824_37 = makeCons(co->gc, v__3520001_37, v__3520823_37);
+Obj v__3520825_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520824_37);
+coraReturn(co, v__3520825_37);
 return;
 }
 case 2:
 {
-Obj v__3520832_37= co->res;
-Obj v__3520015_37 = R[1];
-Obj v__3520013_37 = R[2];
-R[1] = v__3520832_37;
-R[2] = v__3520013_37;
+Obj v__3520820_37= co->res;
+Obj v__3520003_37 = R[1];
+Obj v__3520001_37 = R[2];
+R[1] = v__3520820_37;
+R[2] = v__3520001_37;
 saveCont(co, clofun46, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v__3520015_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1), v__3520003_37);
 return;
 }
 }
@@ -6582,14 +6582,14 @@ static void clofun45(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520801_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520801_37) {
-Obj v__3520802_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520011_37 = v__3520802_37;
-Obj v__3520803_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520012_37 = v__3520803_37;
-R[1] = v__3520011_37;
-R[2] = v__3520012_37;
+Obj v__3520789_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520789_37) {
+Obj v__3520790_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519999_37 = v__3520790_37;
+Obj v__3520791_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520000_37 = v__3520791_37;
+R[1] = v__3519999_37;
+R[2] = v__3520000_37;
 saveCont(co, clofun45, 1, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 70)), closureRef(R[0], 1));
 return;
@@ -6601,12 +6601,12 @@ return;
 }
 case 1:
 {
-Obj v__3520804_37= co->res;
-Obj v__3520011_37 = R[1];
-Obj v__3520012_37 = R[2];
-Obj v__3520805_37 = makeCons(co->gc, v__3520011_37, v__3520012_37);
+Obj v__3520792_37= co->res;
+Obj v__3519999_37 = R[1];
+Obj v__3520000_37 = R[2];
+Obj v__3520793_37 = makeCons(co->gc, v__3519999_37, v__3520000_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520804_37, v__3520805_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520792_37, v__3520793_37);
 return;
 }
 }
@@ -6616,86 +6616,86 @@ static void clofun44(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519409_37 = R[1];
-R[1] = v__3519409_37;
+Obj v__3519397_37 = R[1];
+R[1] = v__3519397_37;
 saveCont(co, clofun44, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519409_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 78)), v__3519397_37);
 return;
 }
 case 1:
 {
-Obj v__3520793_37= co->res;
-Obj v__3520006_37 = R[1];
+Obj v__3520781_37= co->res;
+Obj v__3519994_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520793_37, v__3520006_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520781_37, v__3519994_37);
 return;
 }
 case 2:
 {
-Obj v__3520620_37= co->res;
-Obj v__3519409_37 = R[1];
-if (True == v__3520620_37) {
+Obj v__3520608_37= co->res;
+Obj v__3519397_37 = R[1];
+if (True == v__3520608_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3520621_37 = primIsSymbol(v__3519409_37);
-if (True == v__3520621_37) {
-Obj v__3520622_37 = makeCons(co->gc, v__3519409_37, Nil);
-coraReturn(co, v__3520622_37);
-return;
-} else {
-Obj v__3519979_37 = makeNative(co->gc, 1, clofun43, 0, 1, v__3519409_37);
-Obj v__3520776_37 = PRIM_ISCONS(v__3519409_37);
-if (True == v__3520776_37) {
-Obj v__3520777_37 = PRIM_CAR(v__3519409_37);
-Obj v__3520778_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520777_37);
-if (True == v__3520778_37) {
-Obj v__3520779_37 = PRIM_CDR(v__3519409_37);
-Obj v__3520780_37 = PRIM_ISCONS(v__3520779_37);
+Obj v__3520609_37 = primIsSymbol(v__3519397_37);
+if (True == v__3520609_37) {
+Obj v__3520610_37 = makeCons(co->gc, v__3519397_37, Nil);
+coraReturn(co, v__3520610_37);
+return;
+} else {
+Obj v__3519967_37 = makeNative(co->gc, 1, clofun43, 0, 1, v__3519397_37);
+Obj v__3520764_37 = PRIM_ISCONS(v__3519397_37);
+if (True == v__3520764_37) {
+Obj v__3520765_37 = PRIM_CAR(v__3519397_37);
+Obj v__3520766_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520765_37);
+if (True == v__3520766_37) {
+Obj v__3520767_37 = PRIM_CDR(v__3519397_37);
+Obj v__3520768_37 = PRIM_ISCONS(v__3520767_37);
+if (True == v__3520768_37) {
+Obj v__3520769_37 = PRIM_CDR(v__3519397_37);
+Obj v__3520770_37 = PRIM_CAR(v__3520769_37);
+Obj v__3519994_37 = v__3520770_37;
+Obj v__3520771_37 = PRIM_CDR(v__3519397_37);
+Obj v__3520772_37 = PRIM_CDR(v__3520771_37);
+Obj v__3520773_37 = PRIM_ISCONS(v__3520772_37);
+if (True == v__3520773_37) {
+Obj v__3520774_37 = PRIM_CDR(v__3519397_37);
+Obj v__3520775_37 = PRIM_CDR(v__3520774_37);
+Obj v__3520776_37 = PRIM_CAR(v__3520775_37);
+Obj v__3519995_37 = v__3520776_37;
+Obj v__3520777_37 = PRIM_CDR(v__3519397_37);
+Obj v__3520778_37 = PRIM_CDR(v__3520777_37);
+Obj v__3520779_37 = PRIM_CDR(v__3520778_37);
+Obj v__3520780_37 = PRIM_EQ(Nil, v__3520779_37);
 if (True == v__3520780_37) {
-Obj v__3520781_37 = PRIM_CDR(v__3519409_37);
-Obj v__3520782_37 = PRIM_CAR(v__3520781_37);
-Obj v__3520006_37 = v__3520782_37;
-Obj v__3520783_37 = PRIM_CDR(v__3519409_37);
-Obj v__3520784_37 = PRIM_CDR(v__3520783_37);
-Obj v__3520785_37 = PRIM_ISCONS(v__3520784_37);
-if (True == v__3520785_37) {
-Obj v__3520786_37 = PRIM_CDR(v__3519409_37);
-Obj v__3520787_37 = PRIM_CDR(v__3520786_37);
-Obj v__3520788_37 = PRIM_CAR(v__3520787_37);
-Obj v__3520007_37 = v__3520788_37;
-Obj v__3520789_37 = PRIM_CDR(v__3519409_37);
-Obj v__3520790_37 = PRIM_CDR(v__3520789_37);
-Obj v__3520791_37 = PRIM_CDR(v__3520790_37);
-Obj v__3520792_37 = PRIM_EQ(Nil, v__3520791_37);
-if (True == v__3520792_37) {
-R[1] = v__3520006_37;
+R[1] = v__3519994_37;
 saveCont(co, clofun44, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520007_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519995_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519979_37);
+coraCall0(co, v__3519967_37);
 return;
 }
 }
@@ -6708,84 +6708,84 @@ static void clofun43(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519980_37 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
-Obj v__3520746_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520746_37) {
-Obj v__3520747_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520748_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520747_37);
-if (True == v__3520748_37) {
-Obj v__3520749_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519968_37 = makeNative(co->gc, 1, clofun42, 0, 1, closureRef(R[0], 0));
+Obj v__3520734_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520734_37) {
+Obj v__3520735_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520736_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520735_37);
+if (True == v__3520736_37) {
+Obj v__3520737_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520738_37 = PRIM_ISCONS(v__3520737_37);
+if (True == v__3520738_37) {
+Obj v__3520739_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520740_37 = PRIM_CAR(v__3520739_37);
+Obj v__3519991_37 = v__3520740_37;
+Obj v__3520741_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520742_37 = PRIM_CDR(v__3520741_37);
+Obj v__3520743_37 = PRIM_ISCONS(v__3520742_37);
+if (True == v__3520743_37) {
+Obj v__3520744_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520745_37 = PRIM_CDR(v__3520744_37);
+Obj v__3520746_37 = PRIM_CAR(v__3520745_37);
+Obj v__3519992_37 = v__3520746_37;
+Obj v__3520747_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520748_37 = PRIM_CDR(v__3520747_37);
+Obj v__3520749_37 = PRIM_CDR(v__3520748_37);
 Obj v__3520750_37 = PRIM_ISCONS(v__3520749_37);
 if (True == v__3520750_37) {
 Obj v__3520751_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520752_37 = PRIM_CAR(v__3520751_37);
-Obj v__3520003_37 = v__3520752_37;
-Obj v__3520753_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520754_37 = PRIM_CDR(v__3520753_37);
-Obj v__3520755_37 = PRIM_ISCONS(v__3520754_37);
-if (True == v__3520755_37) {
-Obj v__3520756_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520752_37 = PRIM_CDR(v__3520751_37);
+Obj v__3520753_37 = PRIM_CDR(v__3520752_37);
+Obj v__3520754_37 = PRIM_CAR(v__3520753_37);
+Obj v__3519993_37 = v__3520754_37;
+Obj v__3520755_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520756_37 = PRIM_CDR(v__3520755_37);
 Obj v__3520757_37 = PRIM_CDR(v__3520756_37);
-Obj v__3520758_37 = PRIM_CAR(v__3520757_37);
-Obj v__3520004_37 = v__3520758_37;
-Obj v__3520759_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520760_37 = PRIM_CDR(v__3520759_37);
-Obj v__3520761_37 = PRIM_CDR(v__3520760_37);
-Obj v__3520762_37 = PRIM_ISCONS(v__3520761_37);
-if (True == v__3520762_37) {
-Obj v__3520763_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520764_37 = PRIM_CDR(v__3520763_37);
-Obj v__3520765_37 = PRIM_CDR(v__3520764_37);
-Obj v__3520766_37 = PRIM_CAR(v__3520765_37);
-Obj v__3520005_37 = v__3520766_37;
-Obj v__3520767_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520768_37 = PRIM_CDR(v__3520767_37);
-Obj v__3520769_37 = PRIM_CDR(v__3520768_37);
-Obj v__3520770_37 = PRIM_CDR(v__3520769_37);
-Obj v__3520771_37 = PRIM_EQ(Nil, v__3520770_37);
-if (True == v__3520771_37) {
-Obj v__3520772_37 = makeCons(co->gc, v__3520005_37, Nil);
-Obj v__3520773_37 = makeCons(co->gc, v__3520004_37, v__3520772_37);
-Obj v__3520774_37 = makeCons(co->gc, v__3520003_37, v__3520773_37);
+Obj v__3520758_37 = PRIM_CDR(v__3520757_37);
+Obj v__3520759_37 = PRIM_EQ(Nil, v__3520758_37);
+if (True == v__3520759_37) {
+Obj v__3520760_37 = makeCons(co->gc, v__3519993_37, Nil);
+Obj v__3520761_37 = makeCons(co->gc, v__3519992_37, v__3520760_37);
+Obj v__3520762_37 = makeCons(co->gc, v__3519991_37, v__3520761_37);
 saveCont(co, clofun43, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520774_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520762_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3519968_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3519968_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3519968_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3519968_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3519968_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519980_37);
+coraCall0(co, v__3519968_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520775_37= co->res;
+Obj v__3520763_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520775_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520763_37);
 return;
 }
 }
@@ -6795,67 +6795,67 @@ static void clofun42(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519981_37 = makeNative(co->gc, 3, clofun41, 0, 1, closureRef(R[0], 0));
-Obj v__3520726_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520726_37) {
-Obj v__3520727_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520728_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520727_37);
-if (True == v__3520728_37) {
-Obj v__3520729_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520730_37 = PRIM_ISCONS(v__3520729_37);
+Obj v__3519969_37 = makeNative(co->gc, 3, clofun41, 0, 1, closureRef(R[0], 0));
+Obj v__3520714_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520714_37) {
+Obj v__3520715_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520716_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520715_37);
+if (True == v__3520716_37) {
+Obj v__3520717_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520718_37 = PRIM_ISCONS(v__3520717_37);
+if (True == v__3520718_37) {
+Obj v__3520719_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520720_37 = PRIM_CAR(v__3520719_37);
+Obj v__3519989_37 = v__3520720_37;
+Obj v__3520721_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520722_37 = PRIM_CDR(v__3520721_37);
+Obj v__3520723_37 = PRIM_ISCONS(v__3520722_37);
+if (True == v__3520723_37) {
+Obj v__3520724_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520725_37 = PRIM_CDR(v__3520724_37);
+Obj v__3520726_37 = PRIM_CAR(v__3520725_37);
+Obj v__3519990_37 = v__3520726_37;
+Obj v__3520727_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520728_37 = PRIM_CDR(v__3520727_37);
+Obj v__3520729_37 = PRIM_CDR(v__3520728_37);
+Obj v__3520730_37 = PRIM_EQ(Nil, v__3520729_37);
 if (True == v__3520730_37) {
-Obj v__3520731_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520732_37 = PRIM_CAR(v__3520731_37);
-Obj v__3520001_37 = v__3520732_37;
-Obj v__3520733_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520734_37 = PRIM_CDR(v__3520733_37);
-Obj v__3520735_37 = PRIM_ISCONS(v__3520734_37);
-if (True == v__3520735_37) {
-Obj v__3520736_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520737_37 = PRIM_CDR(v__3520736_37);
-Obj v__3520738_37 = PRIM_CAR(v__3520737_37);
-Obj v__3520002_37 = v__3520738_37;
-Obj v__3520739_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520740_37 = PRIM_CDR(v__3520739_37);
-Obj v__3520741_37 = PRIM_CDR(v__3520740_37);
-Obj v__3520742_37 = PRIM_EQ(Nil, v__3520741_37);
-if (True == v__3520742_37) {
-Obj v__3520743_37 = makeCons(co->gc, v__3520002_37, Nil);
-Obj v__3520744_37 = makeCons(co->gc, v__3520001_37, v__3520743_37);
+Obj v__3520731_37 = makeCons(co->gc, v__3519990_37, Nil);
+Obj v__3520732_37 = makeCons(co->gc, v__3519989_37, v__3520731_37);
 saveCont(co, clofun42, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520744_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520732_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3519969_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3519969_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3519969_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3519969_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519981_37);
+coraCall0(co, v__3519969_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520745_37= co->res;
+Obj v__3520733_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520745_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520733_37);
 return;
 }
 }
@@ -6865,106 +6865,106 @@ static void clofun41(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519982_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
-Obj v__3520696_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520696_37) {
-Obj v__3520697_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520698_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520697_37);
-if (True == v__3520698_37) {
-Obj v__3520699_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519970_37 = makeNative(co->gc, 1, clofun40, 0, 1, closureRef(R[0], 0));
+Obj v__3520684_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520684_37) {
+Obj v__3520685_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520686_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520685_37);
+if (True == v__3520686_37) {
+Obj v__3520687_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520688_37 = PRIM_ISCONS(v__3520687_37);
+if (True == v__3520688_37) {
+Obj v__3520689_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520690_37 = PRIM_CAR(v__3520689_37);
+Obj v__3519986_37 = v__3520690_37;
+Obj v__3520691_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520692_37 = PRIM_CDR(v__3520691_37);
+Obj v__3520693_37 = PRIM_ISCONS(v__3520692_37);
+if (True == v__3520693_37) {
+Obj v__3520694_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520695_37 = PRIM_CDR(v__3520694_37);
+Obj v__3520696_37 = PRIM_CAR(v__3520695_37);
+Obj v__3519987_37 = v__3520696_37;
+Obj v__3520697_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520698_37 = PRIM_CDR(v__3520697_37);
+Obj v__3520699_37 = PRIM_CDR(v__3520698_37);
 Obj v__3520700_37 = PRIM_ISCONS(v__3520699_37);
 if (True == v__3520700_37) {
 Obj v__3520701_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520702_37 = PRIM_CAR(v__3520701_37);
-Obj v__3519998_37 = v__3520702_37;
-Obj v__3520703_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520704_37 = PRIM_CDR(v__3520703_37);
-Obj v__3520705_37 = PRIM_ISCONS(v__3520704_37);
-if (True == v__3520705_37) {
-Obj v__3520706_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520702_37 = PRIM_CDR(v__3520701_37);
+Obj v__3520703_37 = PRIM_CDR(v__3520702_37);
+Obj v__3520704_37 = PRIM_CAR(v__3520703_37);
+Obj v__3519988_37 = v__3520704_37;
+Obj v__3520705_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520706_37 = PRIM_CDR(v__3520705_37);
 Obj v__3520707_37 = PRIM_CDR(v__3520706_37);
-Obj v__3520708_37 = PRIM_CAR(v__3520707_37);
-Obj v__3519999_37 = v__3520708_37;
-Obj v__3520709_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520710_37 = PRIM_CDR(v__3520709_37);
-Obj v__3520711_37 = PRIM_CDR(v__3520710_37);
-Obj v__3520712_37 = PRIM_ISCONS(v__3520711_37);
-if (True == v__3520712_37) {
-Obj v__3520713_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520714_37 = PRIM_CDR(v__3520713_37);
-Obj v__3520715_37 = PRIM_CDR(v__3520714_37);
-Obj v__3520716_37 = PRIM_CAR(v__3520715_37);
-Obj v__3520000_37 = v__3520716_37;
-Obj v__3520717_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520718_37 = PRIM_CDR(v__3520717_37);
-Obj v__3520719_37 = PRIM_CDR(v__3520718_37);
-Obj v__3520720_37 = PRIM_CDR(v__3520719_37);
-Obj v__3520721_37 = PRIM_EQ(Nil, v__3520720_37);
-if (True == v__3520721_37) {
-R[1] = v__3520000_37;
-R[2] = v__3519998_37;
+Obj v__3520708_37 = PRIM_CDR(v__3520707_37);
+Obj v__3520709_37 = PRIM_EQ(Nil, v__3520708_37);
+if (True == v__3520709_37) {
+R[1] = v__3519988_37;
+R[2] = v__3519986_37;
 saveCont(co, clofun41, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519999_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519987_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3519970_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3519970_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3519970_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3519970_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3519970_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519982_37);
+coraCall0(co, v__3519970_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520725_37= co->res;
-Obj v__3520722_37 = R[1];
+Obj v__3520713_37= co->res;
+Obj v__3520710_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3520722_37, v__3520725_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3520710_37, v__3520713_37);
 return;
 }
 case 2:
 {
-Obj v__3520723_37= co->res;
-Obj v__3519998_37 = R[1];
-Obj v__3520722_37 = R[2];
-Obj v__3520724_37 = makeCons(co->gc, v__3519998_37, Nil);
-R[1] = v__3520722_37;
+Obj v__3520711_37= co->res;
+Obj v__3519986_37 = R[1];
+Obj v__3520710_37 = R[2];
+Obj v__3520712_37 = makeCons(co->gc, v__3519986_37, Nil);
+R[1] = v__3520710_37;
 saveCont(co, clofun41, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520723_37, v__3520724_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520711_37, v__3520712_37);
 return;
 }
 case 3:
 {
-Obj v__3520722_37= co->res;
-Obj v__3520000_37 = R[1];
-Obj v__3519998_37 = R[2];
-R[1] = v__3519998_37;
-R[2] = v__3520722_37;
+Obj v__3520710_37= co->res;
+Obj v__3519988_37 = R[1];
+Obj v__3519986_37 = R[2];
+R[1] = v__3519986_37;
+R[2] = v__3520710_37;
 saveCont(co, clofun41, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520000_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519988_37);
 return;
 }
 }
@@ -6974,38 +6974,38 @@ static void clofun40(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519983_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
-Obj v__3520686_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520686_37) {
-Obj v__3520687_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520688_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520687_37);
-if (True == v__3520688_37) {
-Obj v__3520689_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520690_37 = PRIM_ISCONS(v__3520689_37);
-if (True == v__3520690_37) {
-Obj v__3520691_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520692_37 = PRIM_CAR(v__3520691_37);
-Obj v__3519996_37 = v__3520692_37;
-Obj v__3520693_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520694_37 = PRIM_CDR(v__3520693_37);
-Obj v__3519997_37 = v__3520694_37;
-Obj v__3520695_37 = makeCons(co->gc, v__3519996_37, v__3519997_37);
+Obj v__3519971_37 = makeNative(co->gc, 1, clofun39, 0, 1, closureRef(R[0], 0));
+Obj v__3520674_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520674_37) {
+Obj v__3520675_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520676_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520675_37);
+if (True == v__3520676_37) {
+Obj v__3520677_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520678_37 = PRIM_ISCONS(v__3520677_37);
+if (True == v__3520678_37) {
+Obj v__3520679_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520680_37 = PRIM_CAR(v__3520679_37);
+Obj v__3519984_37 = v__3520680_37;
+Obj v__3520681_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520682_37 = PRIM_CDR(v__3520681_37);
+Obj v__3519985_37 = v__3520682_37;
+Obj v__3520683_37 = makeCons(co->gc, v__3519984_37, v__3519985_37);
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520695_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3520683_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3519971_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3519971_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519983_37);
+coraCall0(co, v__3519971_37);
 return;
 }
 }
@@ -7016,43 +7016,43 @@ static void clofun39(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519984_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
-Obj v__3520676_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520676_37) {
-Obj v__3520677_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520678_37 = PRIM_EQ(getBinding(co, packageID, 71).name, v__3520677_37);
-if (True == v__3520678_37) {
-Obj v__3520679_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520680_37 = PRIM_ISCONS(v__3520679_37);
-if (True == v__3520680_37) {
-Obj v__3520681_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520682_37 = PRIM_CAR(v__3520681_37);
-Obj v__3519995_37 = v__3520682_37;
-Obj v__3520683_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520684_37 = PRIM_CDR(v__3520683_37);
-Obj v__3520685_37 = PRIM_EQ(Nil, v__3520684_37);
-if (True == v__3520685_37) {
+Obj v__3519972_37 = makeNative(co->gc, 1, clofun38, 0, 1, closureRef(R[0], 0));
+Obj v__3520664_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520664_37) {
+Obj v__3520665_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520666_37 = PRIM_EQ(getBinding(co, packageID, 71).name, v__3520665_37);
+if (True == v__3520666_37) {
+Obj v__3520667_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520668_37 = PRIM_ISCONS(v__3520667_37);
+if (True == v__3520668_37) {
+Obj v__3520669_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520670_37 = PRIM_CAR(v__3520669_37);
+Obj v__3519983_37 = v__3520670_37;
+Obj v__3520671_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520672_37 = PRIM_CDR(v__3520671_37);
+Obj v__3520673_37 = PRIM_EQ(Nil, v__3520672_37);
+if (True == v__3520673_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519995_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519983_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519984_37);
+coraCall0(co, v__3519972_37);
 return;
 }
 }
@@ -7063,67 +7063,67 @@ static void clofun38(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519985_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
-Obj v__3520656_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520656_37) {
-Obj v__3520657_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520658_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3520657_37);
-if (True == v__3520658_37) {
-Obj v__3520659_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520660_37 = PRIM_ISCONS(v__3520659_37);
+Obj v__3519973_37 = makeNative(co->gc, 1, clofun37, 0, 1, closureRef(R[0], 0));
+Obj v__3520644_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520644_37) {
+Obj v__3520645_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520646_37 = PRIM_EQ(getBinding(co, packageID, 72).name, v__3520645_37);
+if (True == v__3520646_37) {
+Obj v__3520647_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520648_37 = PRIM_ISCONS(v__3520647_37);
+if (True == v__3520648_37) {
+Obj v__3520649_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520650_37 = PRIM_CAR(v__3520649_37);
+Obj v__3519981_37 = v__3520650_37;
+Obj v__3520651_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520652_37 = PRIM_CDR(v__3520651_37);
+Obj v__3520653_37 = PRIM_ISCONS(v__3520652_37);
+if (True == v__3520653_37) {
+Obj v__3520654_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520655_37 = PRIM_CDR(v__3520654_37);
+Obj v__3520656_37 = PRIM_CAR(v__3520655_37);
+Obj v__3519982_37 = v__3520656_37;
+Obj v__3520657_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520658_37 = PRIM_CDR(v__3520657_37);
+Obj v__3520659_37 = PRIM_CDR(v__3520658_37);
+Obj v__3520660_37 = PRIM_EQ(Nil, v__3520659_37);
 if (True == v__3520660_37) {
-Obj v__3520661_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520662_37 = PRIM_CAR(v__3520661_37);
-Obj v__3519993_37 = v__3520662_37;
-Obj v__3520663_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520664_37 = PRIM_CDR(v__3520663_37);
-Obj v__3520665_37 = PRIM_ISCONS(v__3520664_37);
-if (True == v__3520665_37) {
-Obj v__3520666_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520667_37 = PRIM_CDR(v__3520666_37);
-Obj v__3520668_37 = PRIM_CAR(v__3520667_37);
-Obj v__3519994_37 = v__3520668_37;
-Obj v__3520669_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520670_37 = PRIM_CDR(v__3520669_37);
-Obj v__3520671_37 = PRIM_CDR(v__3520670_37);
-Obj v__3520672_37 = PRIM_EQ(Nil, v__3520671_37);
-if (True == v__3520672_37) {
-Obj v__3520673_37 = makeCons(co->gc, v__3519994_37, Nil);
-Obj v__3520674_37 = makeCons(co->gc, v__3519993_37, v__3520673_37);
+Obj v__3520661_37 = makeCons(co->gc, v__3519982_37, Nil);
+Obj v__3520662_37 = makeCons(co->gc, v__3519981_37, v__3520661_37);
 saveCont(co, clofun38, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520674_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520662_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519985_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519985_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519985_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519985_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519985_37);
+coraCall0(co, v__3519973_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520675_37= co->res;
+Obj v__3520663_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520675_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520663_37);
 return;
 }
 }
@@ -7133,43 +7133,43 @@ static void clofun37(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519986_37 = makeNative(co->gc, 2, clofun36, 0, 1, closureRef(R[0], 0));
-Obj v__3520646_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520646_37) {
-Obj v__3520647_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520648_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520647_37);
-if (True == v__3520648_37) {
-Obj v__3520649_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520650_37 = PRIM_ISCONS(v__3520649_37);
-if (True == v__3520650_37) {
-Obj v__3520651_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520652_37 = PRIM_CAR(v__3520651_37);
-Obj v__3519992_37 = v__3520652_37;
-Obj v__3520653_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520654_37 = PRIM_CDR(v__3520653_37);
-Obj v__3520655_37 = PRIM_EQ(Nil, v__3520654_37);
-if (True == v__3520655_37) {
+Obj v__3519974_37 = makeNative(co->gc, 2, clofun36, 0, 1, closureRef(R[0], 0));
+Obj v__3520634_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520634_37) {
+Obj v__3520635_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520636_37 = PRIM_EQ(getBinding(co, packageID, 73).name, v__3520635_37);
+if (True == v__3520636_37) {
+Obj v__3520637_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520638_37 = PRIM_ISCONS(v__3520637_37);
+if (True == v__3520638_37) {
+Obj v__3520639_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520640_37 = PRIM_CAR(v__3520639_37);
+Obj v__3519980_37 = v__3520640_37;
+Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520642_37 = PRIM_CDR(v__3520641_37);
+Obj v__3520643_37 = PRIM_EQ(Nil, v__3520642_37);
+if (True == v__3520643_37) {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519992_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519980_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519986_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519986_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519986_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519986_37);
+coraCall0(co, v__3519974_37);
 return;
 }
 }
@@ -7180,67 +7180,67 @@ static void clofun36(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519987_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
-Obj v__3520628_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520628_37) {
-Obj v__3520629_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520630_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520629_37);
-if (True == v__3520630_37) {
-Obj v__3520631_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520632_37 = PRIM_ISCONS(v__3520631_37);
+Obj v__3519975_37 = makeNative(co->gc, 1, clofun35, 0, 1, closureRef(R[0], 0));
+Obj v__3520616_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520616_37) {
+Obj v__3520617_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520618_37 = PRIM_EQ(getBinding(co, packageID, 74).name, v__3520617_37);
+if (True == v__3520618_37) {
+Obj v__3520619_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520620_37 = PRIM_ISCONS(v__3520619_37);
+if (True == v__3520620_37) {
+Obj v__3520621_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520622_37 = PRIM_CAR(v__3520621_37);
+Obj v__3519978_37 = v__3520622_37;
+Obj v__3520623_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520624_37 = PRIM_CDR(v__3520623_37);
+Obj v__3520625_37 = PRIM_ISCONS(v__3520624_37);
+if (True == v__3520625_37) {
+Obj v__3520626_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520627_37 = PRIM_CDR(v__3520626_37);
+Obj v__3520628_37 = PRIM_CAR(v__3520627_37);
+Obj v__3519979_37 = v__3520628_37;
+Obj v__3520629_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520630_37 = PRIM_CDR(v__3520629_37);
+Obj v__3520631_37 = PRIM_CDR(v__3520630_37);
+Obj v__3520632_37 = PRIM_EQ(Nil, v__3520631_37);
 if (True == v__3520632_37) {
-Obj v__3520633_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520634_37 = PRIM_CAR(v__3520633_37);
-Obj v__3519990_37 = v__3520634_37;
-Obj v__3520635_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520636_37 = PRIM_CDR(v__3520635_37);
-Obj v__3520637_37 = PRIM_ISCONS(v__3520636_37);
-if (True == v__3520637_37) {
-Obj v__3520638_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520639_37 = PRIM_CDR(v__3520638_37);
-Obj v__3520640_37 = PRIM_CAR(v__3520639_37);
-Obj v__3519991_37 = v__3520640_37;
-Obj v__3520641_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520642_37 = PRIM_CDR(v__3520641_37);
-Obj v__3520643_37 = PRIM_CDR(v__3520642_37);
-Obj v__3520644_37 = PRIM_EQ(Nil, v__3520643_37);
-if (True == v__3520644_37) {
-R[1] = v__3519990_37;
+R[1] = v__3519978_37;
 saveCont(co, clofun36, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519991_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 75)), v__3519979_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519987_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519987_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519987_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519987_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519987_37);
+coraCall0(co, v__3519975_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520645_37= co->res;
-Obj v__3519990_37 = R[1];
+Obj v__3520633_37= co->res;
+Obj v__3519978_37 = R[1];
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520645_37, v__3519990_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3520633_37, v__3519978_37);
 return;
 }
 }
@@ -7250,15 +7250,15 @@ static void clofun35(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520623_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520623_37) {
-Obj v__3520624_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519988_37 = v__3520624_37;
-Obj v__3520625_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519989_37 = v__3520625_37;
-Obj v__3520626_37 = makeCons(co->gc, v__3519988_37, v__3519989_37);
+Obj v__3520611_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520611_37) {
+Obj v__3520612_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519976_37 = v__3520612_37;
+Obj v__3520613_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519977_37 = v__3520613_37;
+Obj v__3520614_37 = makeCons(co->gc, v__3519976_37, v__3519977_37);
 saveCont(co, clofun35, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520626_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), globalRef(co, getBinding(co, packageID, 75)), v__3520614_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -7268,9 +7268,9 @@ return;
 }
 case 1:
 {
-Obj v__3520627_37= co->res;
+Obj v__3520615_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520627_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), globalRef(co, getBinding(co, packageID, 81)), Nil, v__3520615_37);
 return;
 }
 }
@@ -7280,42 +7280,42 @@ static void clofun34(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519401_37 = R[1];
-Obj v__3519972_37 = makeNative(co->gc, 1, clofun33, 0, 1, v__3519401_37);
-Obj v__3520609_37 = PRIM_ISCONS(v__3519401_37);
-if (True == v__3520609_37) {
-Obj v__3520610_37 = PRIM_CAR(v__3519401_37);
-Obj v__3520611_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3520610_37);
-if (True == v__3520611_37) {
-Obj v__3520612_37 = PRIM_CDR(v__3519401_37);
-Obj v__3520613_37 = PRIM_ISCONS(v__3520612_37);
-if (True == v__3520613_37) {
-Obj v__3520614_37 = PRIM_CDR(v__3519401_37);
-Obj v__3520615_37 = PRIM_CAR(v__3520614_37);
-Obj v__3520616_37 = PRIM_CDR(v__3519401_37);
-Obj v__3520617_37 = PRIM_CDR(v__3520616_37);
-Obj v__3520618_37 = PRIM_EQ(Nil, v__3520617_37);
-if (True == v__3520618_37) {
+Obj v__3519389_37 = R[1];
+Obj v__3519960_37 = makeNative(co->gc, 1, clofun33, 0, 1, v__3519389_37);
+Obj v__3520597_37 = PRIM_ISCONS(v__3519389_37);
+if (True == v__3520597_37) {
+Obj v__3520598_37 = PRIM_CAR(v__3519389_37);
+Obj v__3520599_37 = PRIM_EQ(getBinding(co, packageID, 92).name, v__3520598_37);
+if (True == v__3520599_37) {
+Obj v__3520600_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520601_37 = PRIM_ISCONS(v__3520600_37);
+if (True == v__3520601_37) {
+Obj v__3520602_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520603_37 = PRIM_CAR(v__3520602_37);
+Obj v__3520604_37 = PRIM_CDR(v__3519389_37);
+Obj v__3520605_37 = PRIM_CDR(v__3520604_37);
+Obj v__3520606_37 = PRIM_EQ(Nil, v__3520605_37);
+if (True == v__3520606_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519972_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519972_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519972_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519972_37);
+coraCall0(co, v__3519960_37);
 return;
 }
 }
@@ -7326,41 +7326,41 @@ static void clofun33(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519973_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
-Obj v__3520599_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520599_37) {
-Obj v__3520600_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520601_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520600_37);
-if (True == v__3520601_37) {
-Obj v__3520602_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520603_37 = PRIM_ISCONS(v__3520602_37);
-if (True == v__3520603_37) {
-Obj v__3520604_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520605_37 = PRIM_CAR(v__3520604_37);
-Obj v__3520606_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520607_37 = PRIM_CDR(v__3520606_37);
-Obj v__3520608_37 = PRIM_EQ(Nil, v__3520607_37);
-if (True == v__3520608_37) {
+Obj v__3519961_37 = makeNative(co->gc, 1, clofun32, 0, 1, closureRef(R[0], 0));
+Obj v__3520587_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520587_37) {
+Obj v__3520588_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520589_37 = PRIM_EQ(getBinding(co, packageID, 90).name, v__3520588_37);
+if (True == v__3520589_37) {
+Obj v__3520590_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520591_37 = PRIM_ISCONS(v__3520590_37);
+if (True == v__3520591_37) {
+Obj v__3520592_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520593_37 = PRIM_CAR(v__3520592_37);
+Obj v__3520594_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520595_37 = PRIM_CDR(v__3520594_37);
+Obj v__3520596_37 = PRIM_EQ(Nil, v__3520595_37);
+if (True == v__3520596_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519973_37);
+coraCall0(co, v__3519961_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519973_37);
+coraCall0(co, v__3519961_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519973_37);
+coraCall0(co, v__3519961_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519973_37);
+coraCall0(co, v__3519961_37);
 return;
 }
 }
@@ -7371,41 +7371,41 @@ static void clofun32(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519974_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
-Obj v__3520589_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520589_37) {
-Obj v__3520590_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520591_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520590_37);
-if (True == v__3520591_37) {
-Obj v__3520592_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520593_37 = PRIM_ISCONS(v__3520592_37);
-if (True == v__3520593_37) {
-Obj v__3520594_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520595_37 = PRIM_CAR(v__3520594_37);
-Obj v__3520596_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520597_37 = PRIM_CDR(v__3520596_37);
-Obj v__3520598_37 = PRIM_EQ(Nil, v__3520597_37);
-if (True == v__3520598_37) {
+Obj v__3519962_37 = makeNative(co->gc, 1, clofun31, 0, 1, closureRef(R[0], 0));
+Obj v__3520577_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520577_37) {
+Obj v__3520578_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520579_37 = PRIM_EQ(getBinding(co, packageID, 87).name, v__3520578_37);
+if (True == v__3520579_37) {
+Obj v__3520580_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520581_37 = PRIM_ISCONS(v__3520580_37);
+if (True == v__3520581_37) {
+Obj v__3520582_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520583_37 = PRIM_CAR(v__3520582_37);
+Obj v__3520584_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520585_37 = PRIM_CDR(v__3520584_37);
+Obj v__3520586_37 = PRIM_EQ(Nil, v__3520585_37);
+if (True == v__3520586_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3519962_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3519962_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3519962_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519974_37);
+coraCall0(co, v__3519962_37);
 return;
 }
 }
@@ -7416,41 +7416,41 @@ static void clofun31(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519975_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
-Obj v__3520579_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520579_37) {
-Obj v__3520580_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520581_37 = PRIM_EQ(getBinding(co, packageID, 84).name, v__3520580_37);
-if (True == v__3520581_37) {
-Obj v__3520582_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520583_37 = PRIM_ISCONS(v__3520582_37);
-if (True == v__3520583_37) {
-Obj v__3520584_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520585_37 = PRIM_CAR(v__3520584_37);
-Obj v__3520586_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520587_37 = PRIM_CDR(v__3520586_37);
-Obj v__3520588_37 = PRIM_EQ(Nil, v__3520587_37);
-if (True == v__3520588_37) {
+Obj v__3519963_37 = makeNative(co->gc, 1, clofun30, 0, 1, closureRef(R[0], 0));
+Obj v__3520567_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520567_37) {
+Obj v__3520568_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520569_37 = PRIM_EQ(getBinding(co, packageID, 84).name, v__3520568_37);
+if (True == v__3520569_37) {
+Obj v__3520570_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520571_37 = PRIM_ISCONS(v__3520570_37);
+if (True == v__3520571_37) {
+Obj v__3520572_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520573_37 = PRIM_CAR(v__3520572_37);
+Obj v__3520574_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520575_37 = PRIM_CDR(v__3520574_37);
+Obj v__3520576_37 = PRIM_EQ(Nil, v__3520575_37);
+if (True == v__3520576_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3519963_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3519963_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3519963_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519975_37);
+coraCall0(co, v__3519963_37);
 return;
 }
 }
@@ -7461,41 +7461,41 @@ static void clofun30(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519976_37 = makeNative(co->gc, 2, clofun29, 0, 1, closureRef(R[0], 0));
-Obj v__3520569_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520569_37) {
-Obj v__3520570_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520571_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3520570_37);
-if (True == v__3520571_37) {
-Obj v__3520572_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520573_37 = PRIM_ISCONS(v__3520572_37);
-if (True == v__3520573_37) {
-Obj v__3520574_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520575_37 = PRIM_CAR(v__3520574_37);
-Obj v__3520576_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520577_37 = PRIM_CDR(v__3520576_37);
-Obj v__3520578_37 = PRIM_EQ(Nil, v__3520577_37);
-if (True == v__3520578_37) {
+Obj v__3519964_37 = makeNative(co->gc, 2, clofun29, 0, 1, closureRef(R[0], 0));
+Obj v__3520557_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520557_37) {
+Obj v__3520558_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520559_37 = PRIM_EQ(getBinding(co, packageID, 76).name, v__3520558_37);
+if (True == v__3520559_37) {
+Obj v__3520560_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520561_37 = PRIM_ISCONS(v__3520560_37);
+if (True == v__3520561_37) {
+Obj v__3520562_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520563_37 = PRIM_CAR(v__3520562_37);
+Obj v__3520564_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520565_37 = PRIM_CDR(v__3520564_37);
+Obj v__3520566_37 = PRIM_EQ(Nil, v__3520565_37);
+if (True == v__3520566_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3519964_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3519964_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3519964_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519976_37);
+coraCall0(co, v__3519964_37);
 return;
 }
 }
@@ -7506,50 +7506,50 @@ static void clofun29(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519977_37 = makeNative(co->gc, 1, clofun28, 0, 0);
-Obj v__3520559_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520559_37) {
-Obj v__3520560_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520561_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520560_37);
-if (True == v__3520561_37) {
-Obj v__3520562_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520563_37 = PRIM_ISCONS(v__3520562_37);
-if (True == v__3520563_37) {
-Obj v__3520564_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520565_37 = PRIM_CAR(v__3520564_37);
-Obj v__3519978_37 = v__3520565_37;
-Obj v__3520566_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520567_37 = PRIM_CDR(v__3520566_37);
-R[1] = v__3519977_37;
+Obj v__3519965_37 = makeNative(co->gc, 1, clofun28, 0, 0);
+Obj v__3520547_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520547_37) {
+Obj v__3520548_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520549_37 = PRIM_EQ(getBinding(co, packageID, 77).name, v__3520548_37);
+if (True == v__3520549_37) {
+Obj v__3520550_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520551_37 = PRIM_ISCONS(v__3520550_37);
+if (True == v__3520551_37) {
+Obj v__3520552_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520553_37 = PRIM_CAR(v__3520552_37);
+Obj v__3519966_37 = v__3520553_37;
+Obj v__3520554_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520555_37 = PRIM_CDR(v__3520554_37);
+R[1] = v__3519965_37;
 saveCont(co, clofun29, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519978_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519966_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3519965_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3519965_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3519965_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520568_37= co->res;
-Obj v__3519977_37 = R[1];
-if (True == v__3520568_37) {
+Obj v__3520556_37= co->res;
+Obj v__3519965_37 = R[1];
+if (True == v__3520556_37) {
 coraReturn(co, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519977_37);
+coraCall0(co, v__3519965_37);
 return;
 }
 }
@@ -7570,46 +7570,46 @@ static void clofun27(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519389_37 = R[1];
-Obj v__3519390_37 = R[2];
-Obj v__3520548_37 = PRIM_EQ(Nil, v__3519389_37);
-if (True == v__3520548_37) {
+Obj v__3519377_37 = R[1];
+Obj v__3519378_37 = R[2];
+Obj v__3520536_37 = PRIM_EQ(Nil, v__3519377_37);
+if (True == v__3520536_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519967_37 = makeNative(co->gc, 2, clofun26, 0, 2, v__3519389_37, v__3519390_37);
-Obj v__3520554_37 = PRIM_ISCONS(v__3519389_37);
-if (True == v__3520554_37) {
-Obj v__3520555_37 = PRIM_CAR(v__3519389_37);
-Obj v__3519970_37 = v__3520555_37;
-Obj v__3520556_37 = PRIM_CDR(v__3519389_37);
-Obj v__3519971_37 = v__3520556_37;
-R[1] = v__3519971_37;
-R[2] = v__3519390_37;
-R[3] = v__3519967_37;
+Obj v__3519955_37 = makeNative(co->gc, 2, clofun26, 0, 2, v__3519377_37, v__3519378_37);
+Obj v__3520542_37 = PRIM_ISCONS(v__3519377_37);
+if (True == v__3520542_37) {
+Obj v__3520543_37 = PRIM_CAR(v__3519377_37);
+Obj v__3519958_37 = v__3520543_37;
+Obj v__3520544_37 = PRIM_CDR(v__3519377_37);
+Obj v__3519959_37 = v__3520544_37;
+R[1] = v__3519959_37;
+R[2] = v__3519378_37;
+R[3] = v__3519955_37;
 saveCont(co, clofun27, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519970_37, v__3519390_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519958_37, v__3519378_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519967_37);
+coraCall0(co, v__3519955_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520557_37= co->res;
-Obj v__3519971_37 = R[1];
-Obj v__3519390_37 = R[2];
-Obj v__3519967_37 = R[3];
-if (True == v__3520557_37) {
+Obj v__3520545_37= co->res;
+Obj v__3519959_37 = R[1];
+Obj v__3519378_37 = R[2];
+Obj v__3519955_37 = R[3];
+if (True == v__3520545_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3519971_37, v__3519390_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3519959_37, v__3519378_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519967_37);
+coraCall0(co, v__3519955_37);
 return;
 }
 }
@@ -7620,15 +7620,15 @@ static void clofun26(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520549_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520549_37) {
-Obj v__3520550_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519968_37 = v__3520550_37;
-Obj v__3520551_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519969_37 = v__3520551_37;
-R[1] = v__3519968_37;
+Obj v__3520537_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520537_37) {
+Obj v__3520538_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519956_37 = v__3520538_37;
+Obj v__3520539_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519957_37 = v__3520539_37;
+R[1] = v__3519956_37;
 saveCont(co, clofun26, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3519969_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 79)), v__3519957_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7638,10 +7638,10 @@ return;
 }
 case 1:
 {
-Obj v__3520552_37= co->res;
-Obj v__3519968_37 = R[1];
-Obj v__3520553_37 = makeCons(co->gc, v__3519968_37, v__3520552_37);
-coraReturn(co, v__3520553_37);
+Obj v__3520540_37= co->res;
+Obj v__3519956_37 = R[1];
+Obj v__3520541_37 = makeCons(co->gc, v__3519956_37, v__3520540_37);
+coraReturn(co, v__3520541_37);
 return;
 }
 }
@@ -7651,46 +7651,46 @@ static void clofun25(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519377_37 = R[1];
-Obj v__3519378_37 = R[2];
-Obj v__3520537_37 = PRIM_EQ(Nil, v__3519377_37);
-if (True == v__3520537_37) {
-coraReturn(co, v__3519378_37);
+Obj v__3519365_37 = R[1];
+Obj v__3519366_37 = R[2];
+Obj v__3520525_37 = PRIM_EQ(Nil, v__3519365_37);
+if (True == v__3520525_37) {
+coraReturn(co, v__3519366_37);
 return;
 } else {
-Obj v__3519962_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3519377_37, v__3519378_37);
-Obj v__3520543_37 = PRIM_ISCONS(v__3519377_37);
-if (True == v__3520543_37) {
-Obj v__3520544_37 = PRIM_CAR(v__3519377_37);
-Obj v__3519965_37 = v__3520544_37;
-Obj v__3520545_37 = PRIM_CDR(v__3519377_37);
-Obj v__3519966_37 = v__3520545_37;
-R[1] = v__3519966_37;
-R[2] = v__3519378_37;
-R[3] = v__3519962_37;
+Obj v__3519950_37 = makeNative(co->gc, 2, clofun24, 0, 2, v__3519365_37, v__3519366_37);
+Obj v__3520531_37 = PRIM_ISCONS(v__3519365_37);
+if (True == v__3520531_37) {
+Obj v__3520532_37 = PRIM_CAR(v__3519365_37);
+Obj v__3519953_37 = v__3520532_37;
+Obj v__3520533_37 = PRIM_CDR(v__3519365_37);
+Obj v__3519954_37 = v__3520533_37;
+R[1] = v__3519954_37;
+R[2] = v__3519366_37;
+R[3] = v__3519950_37;
 saveCont(co, clofun25, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519965_37, v__3519378_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 80)), v__3519953_37, v__3519366_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519962_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520546_37= co->res;
-Obj v__3519966_37 = R[1];
-Obj v__3519378_37 = R[2];
-Obj v__3519962_37 = R[3];
-if (True == v__3520546_37) {
+Obj v__3520534_37= co->res;
+Obj v__3519954_37 = R[1];
+Obj v__3519366_37 = R[2];
+Obj v__3519950_37 = R[3];
+if (True == v__3520534_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519966_37, v__3519378_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519954_37, v__3519366_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519962_37);
+coraCall0(co, v__3519950_37);
 return;
 }
 }
@@ -7701,15 +7701,15 @@ static void clofun24(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520538_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520538_37) {
-Obj v__3520539_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519963_37 = v__3520539_37;
-Obj v__3520540_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519964_37 = v__3520540_37;
-R[1] = v__3519963_37;
+Obj v__3520526_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520526_37) {
+Obj v__3520527_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519951_37 = v__3520527_37;
+Obj v__3520528_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519952_37 = v__3520528_37;
+R[1] = v__3519951_37;
 saveCont(co, clofun24, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519964_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 81)), v__3519952_37, closureRef(R[0], 1));
 return;
 } else {
 co->ctx.sp = R;
@@ -7719,10 +7719,10 @@ return;
 }
 case 1:
 {
-Obj v__3520541_37= co->res;
-Obj v__3519963_37 = R[1];
-Obj v__3520542_37 = makeCons(co->gc, v__3519963_37, v__3520541_37);
-coraReturn(co, v__3520542_37);
+Obj v__3520529_37= co->res;
+Obj v__3519951_37 = R[1];
+Obj v__3520530_37 = makeCons(co->gc, v__3519951_37, v__3520529_37);
+coraReturn(co, v__3520530_37);
 return;
 }
 }
@@ -7732,66 +7732,66 @@ static void clofun23(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519281_37 = R[1];
-Obj v__3519282_37 = R[2];
-Obj v__3519283_37 = R[3];
-Obj v__3519927_37 = makeNative(co->gc, 2, clofun22, 1, 3, v__3519283_37, v__3519281_37, v__3519282_37);
-R[1] = v__3519283_37;
-R[2] = v__3519927_37;
+Obj v__3519269_37 = R[1];
+Obj v__3519270_37 = R[2];
+Obj v__3519271_37 = R[3];
+Obj v__3519915_37 = makeNative(co->gc, 2, clofun22, 1, 3, v__3519271_37, v__3519269_37, v__3519270_37);
+R[1] = v__3519271_37;
+R[2] = v__3519915_37;
 saveCont(co, clofun23, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519283_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 83)), v__3519271_37);
 return;
 }
 case 1:
 {
-Obj v__3520535_37= co->res;
-Obj v__3519927_37 = R[1];
-if (True == v__3520535_37) {
+Obj v__3520523_37= co->res;
+Obj v__3519915_37 = R[1];
+if (True == v__3520523_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519927_37, True);
+coraCall1(co, v__3519915_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519927_37, False);
+coraCall1(co, v__3519915_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520534_37= co->res;
-Obj v__3519283_37 = R[1];
-Obj v__3519927_37 = R[2];
-if (True == v__3520534_37) {
+Obj v__3520522_37= co->res;
+Obj v__3519271_37 = R[1];
+Obj v__3519915_37 = R[2];
+if (True == v__3520522_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519927_37, True);
+coraCall1(co, v__3519915_37, True);
 return;
 } else {
-R[1] = v__3519927_37;
+R[1] = v__3519915_37;
 saveCont(co, clofun23, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519283_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519271_37);
 return;
 }
 }
 case 3:
 {
-Obj v__3520532_37= co->res;
-Obj v__3519283_37 = R[1];
-Obj v__3519927_37 = R[2];
-if (True == v__3520532_37) {
+Obj v__3520520_37= co->res;
+Obj v__3519271_37 = R[1];
+Obj v__3519915_37 = R[2];
+if (True == v__3520520_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519927_37, True);
+coraCall1(co, v__3519915_37, True);
 return;
 } else {
-Obj v__3520533_37 = primIsString(v__3519283_37);
-if (True == v__3520533_37) {
+Obj v__3520521_37 = primIsString(v__3519271_37);
+if (True == v__3520521_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519927_37, True);
+coraCall1(co, v__3519915_37, True);
 return;
 } else {
-R[1] = v__3519283_37;
-R[2] = v__3519927_37;
+R[1] = v__3519271_37;
+R[2] = v__3519915_37;
 saveCont(co, clofun23, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v__3519283_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 82)), v__3519271_37);
 return;
 }
 }
@@ -7803,86 +7803,86 @@ static void clofun22(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519926_37 = R[1];
-if (True == v__3519926_37) {
-Obj v__3520326_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520327_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520326_37);
-coraReturn(co, v__3520327_37);
+Obj v__3519914_37 = R[1];
+if (True == v__3519914_37) {
+Obj v__3520314_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520315_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520314_37);
+coraReturn(co, v__3520315_37);
 return;
 } else {
-Obj v__3519928_37 = makeNative(co->gc, 3, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520506_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520506_37) {
-Obj v__3520507_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520508_37 = PRIM_EQ(getBinding(co, packageID, 84).name, v__3520507_37);
-if (True == v__3520508_37) {
-Obj v__3520509_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520510_37 = PRIM_ISCONS(v__3520509_37);
-if (True == v__3520510_37) {
-Obj v__3520511_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520512_37 = PRIM_CAR(v__3520511_37);
-Obj v__3519961_37 = v__3520512_37;
-Obj v__3520513_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520514_37 = PRIM_CDR(v__3520513_37);
-Obj v__3520515_37 = PRIM_EQ(Nil, v__3520514_37);
-if (True == v__3520515_37) {
-Obj v__3520516_37 = primIsSymbol(v__3519961_37);
-if (True == v__3520516_37) {
-R[1] = v__3519961_37;
+Obj v__3519916_37 = makeNative(co->gc, 3, clofun21, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520494_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520494_37) {
+Obj v__3520495_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520496_37 = PRIM_EQ(getBinding(co, packageID, 84).name, v__3520495_37);
+if (True == v__3520496_37) {
+Obj v__3520497_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520498_37 = PRIM_ISCONS(v__3520497_37);
+if (True == v__3520498_37) {
+Obj v__3520499_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520500_37 = PRIM_CAR(v__3520499_37);
+Obj v__3519949_37 = v__3520500_37;
+Obj v__3520501_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520502_37 = PRIM_CDR(v__3520501_37);
+Obj v__3520503_37 = PRIM_EQ(Nil, v__3520502_37);
+if (True == v__3520503_37) {
+Obj v__3520504_37 = primIsSymbol(v__3519949_37);
+if (True == v__3520504_37) {
+R[1] = v__3519949_37;
 saveCont(co, clofun22, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3519961_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 91)), v__3519949_37, closureRef(R[0], 2));
 return;
 } else {
-Obj v__3520520_37 = PRIM_ISCONS(v__3519961_37);
-if (True == v__3520520_37) {
-Obj v__3520521_37 = PRIM_CAR(v__3519961_37);
-Obj v__3520522_37 = makeCons(co->gc, v__3520521_37, Nil);
-Obj v__3520523_37 = makeCons(co->gc, getBinding(co, packageID, 84).name, v__3520522_37);
-Obj v__3520524_37 = PRIM_CDR(v__3519961_37);
-Obj v__3520525_37 = makeCons(co->gc, v__3520524_37, Nil);
-Obj v__3520526_37 = makeCons(co->gc, getBinding(co, packageID, 84).name, v__3520525_37);
-Obj v__3520527_37 = makeCons(co->gc, v__3520526_37, Nil);
-Obj v__3520528_37 = makeCons(co->gc, v__3520523_37, v__3520527_37);
-Obj v__3520529_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520528_37);
+Obj v__3520508_37 = PRIM_ISCONS(v__3519949_37);
+if (True == v__3520508_37) {
+Obj v__3520509_37 = PRIM_CAR(v__3519949_37);
+Obj v__3520510_37 = makeCons(co->gc, v__3520509_37, Nil);
+Obj v__3520511_37 = makeCons(co->gc, getBinding(co, packageID, 84).name, v__3520510_37);
+Obj v__3520512_37 = PRIM_CDR(v__3519949_37);
+Obj v__3520513_37 = makeCons(co->gc, v__3520512_37, Nil);
+Obj v__3520514_37 = makeCons(co->gc, getBinding(co, packageID, 84).name, v__3520513_37);
+Obj v__3520515_37 = makeCons(co->gc, v__3520514_37, Nil);
+Obj v__3520516_37 = makeCons(co->gc, v__3520511_37, v__3520515_37);
+Obj v__3520517_37 = makeCons(co->gc, getBinding(co, packageID, 119).name, v__3520516_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520529_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520517_37);
 return;
 } else {
-Obj v__3520530_37 = makeCons(co->gc, v__3519961_37, Nil);
-Obj v__3520531_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520530_37);
-coraReturn(co, v__3520531_37);
+Obj v__3520518_37 = makeCons(co->gc, v__3519949_37, Nil);
+Obj v__3520519_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520518_37);
+coraReturn(co, v__3520519_37);
 return;
 }
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519928_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519928_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519928_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519928_37);
+coraCall0(co, v__3519916_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520517_37= co->res;
-Obj v__3519961_37 = R[1];
-Obj v__3520518_37 = makeCons(co->gc, v__3519961_37, Nil);
-Obj v__3520519_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520518_37);
-coraReturn(co, v__3520519_37);
+Obj v__3520505_37= co->res;
+Obj v__3519949_37 = R[1];
+Obj v__3520506_37 = makeCons(co->gc, v__3519949_37, Nil);
+Obj v__3520507_37 = makeCons(co->gc, getBinding(co, packageID, 92).name, v__3520506_37);
+coraReturn(co, v__3520507_37);
 return;
 }
 }
@@ -7892,85 +7892,85 @@ static void clofun21(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520328_37 = primIsSymbol(closureRef(R[0], 0));
-if (True == v__3520328_37) {
+Obj v__3520316_37 = primIsSymbol(closureRef(R[0], 0));
+if (True == v__3520316_37) {
 saveCont(co, clofun21, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3519930_37 = makeNative(co->gc, 1, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520482_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520482_37) {
-Obj v__3520483_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520484_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520483_37);
-if (True == v__3520484_37) {
-Obj v__3520485_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520486_37 = PRIM_ISCONS(v__3520485_37);
+Obj v__3519918_37 = makeNative(co->gc, 1, clofun19, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520470_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520470_37) {
+Obj v__3520471_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520472_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520471_37);
+if (True == v__3520472_37) {
+Obj v__3520473_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520474_37 = PRIM_ISCONS(v__3520473_37);
+if (True == v__3520474_37) {
+Obj v__3520475_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520476_37 = PRIM_CAR(v__3520475_37);
+Obj v__3519947_37 = v__3520476_37;
+Obj v__3520477_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520478_37 = PRIM_CDR(v__3520477_37);
+Obj v__3520479_37 = PRIM_ISCONS(v__3520478_37);
+if (True == v__3520479_37) {
+Obj v__3520480_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520481_37 = PRIM_CDR(v__3520480_37);
+Obj v__3520482_37 = PRIM_CAR(v__3520481_37);
+Obj v__3519948_37 = v__3520482_37;
+Obj v__3520483_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520484_37 = PRIM_CDR(v__3520483_37);
+Obj v__3520485_37 = PRIM_CDR(v__3520484_37);
+Obj v__3520486_37 = PRIM_EQ(Nil, v__3520485_37);
 if (True == v__3520486_37) {
-Obj v__3520487_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520488_37 = PRIM_CAR(v__3520487_37);
-Obj v__3519959_37 = v__3520488_37;
-Obj v__3520489_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520490_37 = PRIM_CDR(v__3520489_37);
-Obj v__3520491_37 = PRIM_ISCONS(v__3520490_37);
-if (True == v__3520491_37) {
-Obj v__3520492_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520493_37 = PRIM_CDR(v__3520492_37);
-Obj v__3520494_37 = PRIM_CAR(v__3520493_37);
-Obj v__3519960_37 = v__3520494_37;
-Obj v__3520495_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520496_37 = PRIM_CDR(v__3520495_37);
-Obj v__3520497_37 = PRIM_CDR(v__3520496_37);
-Obj v__3520498_37 = PRIM_EQ(Nil, v__3520497_37);
-if (True == v__3520498_37) {
-R[1] = v__3519960_37;
-R[2] = v__3519959_37;
+R[1] = v__3519948_37;
+R[2] = v__3519947_37;
 saveCont(co, clofun21, 5, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), makeNative(co->gc, 2, clofun20, 1, 0), v__3519959_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), makeNative(co->gc, 2, clofun20, 1, 0), v__3519947_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519930_37);
+coraCall0(co, v__3519918_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519930_37);
+coraCall0(co, v__3519918_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519930_37);
+coraCall0(co, v__3519918_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519930_37);
+coraCall0(co, v__3519918_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519930_37);
+coraCall0(co, v__3519918_37);
 return;
 }
 }
 }
 case 1:
 {
-Obj v__3520332_37= co->res;
-Obj v__3520333_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
-Obj v__3520334_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520333_37);
-coraReturn(co, v__3520334_37);
+Obj v__3520320_37= co->res;
+Obj v__3520321_37 = makeCons(co->gc, closureRef(R[0], 0), Nil);
+Obj v__3520322_37 = makeCons(co->gc, getBinding(co, packageID, 90).name, v__3520321_37);
+coraReturn(co, v__3520322_37);
 return;
 }
 case 2:
 {
-Obj v__3520329_37= co->res;
-Obj v__3519929_37 = v__3520329_37;
-Obj v__3520330_37 = PRIM_ISCONS(v__3519929_37);
-if (True == v__3520330_37) {
-Obj v__3520331_37 = PRIM_CDR(v__3519929_37);
-coraReturn(co, v__3520331_37);
+Obj v__3520317_37= co->res;
+Obj v__3519917_37 = v__3520317_37;
+Obj v__3520318_37 = PRIM_ISCONS(v__3519917_37);
+if (True == v__3520318_37) {
+Obj v__3520319_37 = PRIM_CDR(v__3519917_37);
+coraReturn(co, v__3520319_37);
 return;
 } else {
 saveCont(co, clofun21, 1, R);
@@ -7980,33 +7980,33 @@ return;
 }
 case 3:
 {
-Obj v__3520502_37= co->res;
-Obj v__3519959_37 = R[1];
-Obj v__3520503_37 = makeCons(co->gc, v__3520502_37, Nil);
-Obj v__3520504_37 = makeCons(co->gc, v__3519959_37, v__3520503_37);
-Obj v__3520505_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520504_37);
-coraReturn(co, v__3520505_37);
+Obj v__3520490_37= co->res;
+Obj v__3519947_37 = R[1];
+Obj v__3520491_37 = makeCons(co->gc, v__3520490_37, Nil);
+Obj v__3520492_37 = makeCons(co->gc, v__3519947_37, v__3520491_37);
+Obj v__3520493_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520492_37);
+coraReturn(co, v__3520493_37);
 return;
 }
 case 4:
 {
-Obj v__3520501_37= co->res;
-Obj v__3519960_37 = R[1];
-Obj v__3519959_37 = R[2];
-R[1] = v__3519959_37;
+Obj v__3520489_37= co->res;
+Obj v__3519948_37 = R[1];
+Obj v__3519947_37 = R[2];
+R[1] = v__3519947_37;
 saveCont(co, clofun21, 3, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), v__3520501_37, closureRef(R[0], 2), v__3519960_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), v__3520489_37, closureRef(R[0], 2), v__3519948_37);
 return;
 }
 case 5:
 {
-Obj v__3520500_37= co->res;
-Obj v__3519960_37 = R[1];
-Obj v__3519959_37 = R[2];
-R[1] = v__3519960_37;
-R[2] = v__3519959_37;
+Obj v__3520488_37= co->res;
+Obj v__3519948_37 = R[1];
+Obj v__3519947_37 = R[2];
+R[1] = v__3519948_37;
+R[2] = v__3519947_37;
 saveCont(co, clofun21, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3520500_37, closureRef(R[0], 1));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3520488_37, closureRef(R[0], 1));
 return;
 }
 }
@@ -8016,9 +8016,9 @@ static void clofun20(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519374_37 = R[1];
-Obj v__3520499_37 = makeCons(co->gc, v__3519374_37, v__3519374_37);
-coraReturn(co, v__3520499_37);
+Obj v__3519362_37 = R[1];
+Obj v__3520487_37 = makeCons(co->gc, v__3519362_37, v__3519362_37);
+coraReturn(co, v__3520487_37);
 return;
 }
 }
@@ -8028,74 +8028,74 @@ static void clofun19(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519931_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520450_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520450_37) {
-Obj v__3520451_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520452_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520451_37);
-if (True == v__3520452_37) {
+Obj v__3519919_37 = makeNative(co->gc, 2, clofun18, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520438_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520438_37) {
+Obj v__3520439_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520440_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520439_37);
+if (True == v__3520440_37) {
+Obj v__3520441_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520442_37 = PRIM_ISCONS(v__3520441_37);
+if (True == v__3520442_37) {
+Obj v__3520443_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520444_37 = PRIM_CAR(v__3520443_37);
+Obj v__3520445_37 = PRIM_ISCONS(v__3520444_37);
+if (True == v__3520445_37) {
+Obj v__3520446_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520447_37 = PRIM_CAR(v__3520446_37);
+Obj v__3520448_37 = PRIM_CAR(v__3520447_37);
+Obj v__3520449_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520448_37);
+if (True == v__3520449_37) {
+Obj v__3520450_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520451_37 = PRIM_CAR(v__3520450_37);
+Obj v__3520452_37 = PRIM_CDR(v__3520451_37);
+Obj v__3519943_37 = v__3520452_37;
 Obj v__3520453_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520454_37 = PRIM_ISCONS(v__3520453_37);
-if (True == v__3520454_37) {
-Obj v__3520455_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520456_37 = PRIM_CAR(v__3520455_37);
-Obj v__3520457_37 = PRIM_ISCONS(v__3520456_37);
-if (True == v__3520457_37) {
-Obj v__3520458_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520459_37 = PRIM_CAR(v__3520458_37);
-Obj v__3520460_37 = PRIM_CAR(v__3520459_37);
-Obj v__3520461_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520460_37);
-if (True == v__3520461_37) {
-Obj v__3520462_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520463_37 = PRIM_CAR(v__3520462_37);
-Obj v__3520464_37 = PRIM_CDR(v__3520463_37);
-Obj v__3519955_37 = v__3520464_37;
-Obj v__3520465_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520466_37 = PRIM_CDR(v__3520465_37);
-Obj v__3519956_37 = v__3520466_37;
-Obj v__3520467_37 = primGenSym(co);
-Obj v__3519957_37 = v__3520467_37;
-Obj v__3520468_37 = primGenSym(co);
-Obj v__3519958_37 = v__3520468_37;
-Obj v__3520469_37 = makeCons(co->gc, v__3519958_37, Nil);
-Obj v__3520470_37 = makeCons(co->gc, v__3519958_37, v__3519956_37);
-Obj v__3520471_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520470_37);
-Obj v__3520472_37 = makeCons(co->gc, v__3520471_37, Nil);
-Obj v__3520473_37 = makeCons(co->gc, v__3520469_37, v__3520472_37);
-Obj v__3520474_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520473_37);
-Obj v__3520475_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3519955_37);
-Obj v__3520476_37 = makeCons(co->gc, v__3520475_37, Nil);
-Obj v__3520477_37 = makeCons(co->gc, v__3519957_37, v__3520476_37);
-Obj v__3520478_37 = makeCons(co->gc, v__3520477_37, Nil);
-Obj v__3520479_37 = makeCons(co->gc, v__3520474_37, v__3520478_37);
-Obj v__3520480_37 = makeCons(co->gc, v__3519957_37, v__3520479_37);
-Obj v__3520481_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520480_37);
+Obj v__3520454_37 = PRIM_CDR(v__3520453_37);
+Obj v__3519944_37 = v__3520454_37;
+Obj v__3520455_37 = primGenSym(co);
+Obj v__3519945_37 = v__3520455_37;
+Obj v__3520456_37 = primGenSym(co);
+Obj v__3519946_37 = v__3520456_37;
+Obj v__3520457_37 = makeCons(co->gc, v__3519946_37, Nil);
+Obj v__3520458_37 = makeCons(co->gc, v__3519946_37, v__3519944_37);
+Obj v__3520459_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520458_37);
+Obj v__3520460_37 = makeCons(co->gc, v__3520459_37, Nil);
+Obj v__3520461_37 = makeCons(co->gc, v__3520457_37, v__3520460_37);
+Obj v__3520462_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520461_37);
+Obj v__3520463_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3519943_37);
+Obj v__3520464_37 = makeCons(co->gc, v__3520463_37, Nil);
+Obj v__3520465_37 = makeCons(co->gc, v__3519945_37, v__3520464_37);
+Obj v__3520466_37 = makeCons(co->gc, v__3520465_37, Nil);
+Obj v__3520467_37 = makeCons(co->gc, v__3520462_37, v__3520466_37);
+Obj v__3520468_37 = makeCons(co->gc, v__3519945_37, v__3520467_37);
+Obj v__3520469_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520468_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520481_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520469_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3519919_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3519919_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3519919_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3519919_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519931_37);
+coraCall0(co, v__3519919_37);
 return;
 }
 }
@@ -8106,42 +8106,42 @@ static void clofun18(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519932_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520443_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520443_37) {
-Obj v__3520444_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520445_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520444_37);
-if (True == v__3520445_37) {
-Obj v__3520446_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519954_37 = v__3520446_37;
-R[1] = v__3519954_37;
+Obj v__3519920_37 = makeNative(co->gc, 2, clofun17, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520431_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520431_37) {
+Obj v__3520432_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520433_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520432_37);
+if (True == v__3520433_37) {
+Obj v__3520434_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519942_37 = v__3520434_37;
+R[1] = v__3519942_37;
 saveCont(co, clofun18, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3519920_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519932_37);
+coraCall0(co, v__3519920_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520448_37= co->res;
-Obj v__3520449_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520448_37);
-coraReturn(co, v__3520449_37);
+Obj v__3520436_37= co->res;
+Obj v__3520437_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3520436_37);
+coraReturn(co, v__3520437_37);
 return;
 }
 case 2:
 {
-Obj v__3520447_37= co->res;
-Obj v__3519954_37 = R[1];
+Obj v__3520435_37= co->res;
+Obj v__3519942_37 = R[1];
 saveCont(co, clofun18, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520447_37, v__3519954_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520435_37, v__3519942_37);
 return;
 }
 }
@@ -8151,78 +8151,78 @@ static void clofun17(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519933_37 = makeNative(co->gc, 4, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520421_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520421_37) {
-Obj v__3520422_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520423_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520422_37);
-if (True == v__3520423_37) {
-Obj v__3520424_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520425_37 = PRIM_ISCONS(v__3520424_37);
+Obj v__3519921_37 = makeNative(co->gc, 4, clofun16, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520409_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520409_37) {
+Obj v__3520410_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520411_37 = PRIM_EQ(getBinding(co, packageID, 85).name, v__3520410_37);
+if (True == v__3520411_37) {
+Obj v__3520412_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520413_37 = PRIM_ISCONS(v__3520412_37);
+if (True == v__3520413_37) {
+Obj v__3520414_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520415_37 = PRIM_CAR(v__3520414_37);
+Obj v__3519940_37 = v__3520415_37;
+Obj v__3520416_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520417_37 = PRIM_CDR(v__3520416_37);
+Obj v__3520418_37 = PRIM_ISCONS(v__3520417_37);
+if (True == v__3520418_37) {
+Obj v__3520419_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520420_37 = PRIM_CDR(v__3520419_37);
+Obj v__3520421_37 = PRIM_CAR(v__3520420_37);
+Obj v__3519941_37 = v__3520421_37;
+Obj v__3520422_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520423_37 = PRIM_CDR(v__3520422_37);
+Obj v__3520424_37 = PRIM_CDR(v__3520423_37);
+Obj v__3520425_37 = PRIM_EQ(Nil, v__3520424_37);
 if (True == v__3520425_37) {
-Obj v__3520426_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520427_37 = PRIM_CAR(v__3520426_37);
-Obj v__3519952_37 = v__3520427_37;
-Obj v__3520428_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520429_37 = PRIM_CDR(v__3520428_37);
-Obj v__3520430_37 = PRIM_ISCONS(v__3520429_37);
-if (True == v__3520430_37) {
-Obj v__3520431_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520432_37 = PRIM_CDR(v__3520431_37);
-Obj v__3520433_37 = PRIM_CAR(v__3520432_37);
-Obj v__3519953_37 = v__3520433_37;
-Obj v__3520434_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520435_37 = PRIM_CDR(v__3520434_37);
-Obj v__3520436_37 = PRIM_CDR(v__3520435_37);
-Obj v__3520437_37 = PRIM_EQ(Nil, v__3520436_37);
-if (True == v__3520437_37) {
-R[1] = v__3519953_37;
+R[1] = v__3519941_37;
 saveCont(co, clofun17, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519952_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519940_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3519921_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3519921_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3519921_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3519921_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519933_37);
+coraCall0(co, v__3519921_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520439_37= co->res;
-Obj v__3520438_37 = R[1];
-Obj v__3520440_37 = makeCons(co->gc, v__3520439_37, Nil);
-Obj v__3520441_37 = makeCons(co->gc, v__3520438_37, v__3520440_37);
-Obj v__3520442_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520441_37);
-coraReturn(co, v__3520442_37);
+Obj v__3520427_37= co->res;
+Obj v__3520426_37 = R[1];
+Obj v__3520428_37 = makeCons(co->gc, v__3520427_37, Nil);
+Obj v__3520429_37 = makeCons(co->gc, v__3520426_37, v__3520428_37);
+Obj v__3520430_37 = makeCons(co->gc, getBinding(co, packageID, 85).name, v__3520429_37);
+coraReturn(co, v__3520430_37);
 return;
 }
 case 2:
 {
-Obj v__3520438_37= co->res;
-Obj v__3519953_37 = R[1];
-R[1] = v__3520438_37;
+Obj v__3520426_37= co->res;
+Obj v__3519941_37 = R[1];
+R[1] = v__3520426_37;
 saveCont(co, clofun17, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519953_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519941_37);
 return;
 }
 }
@@ -8232,105 +8232,105 @@ static void clofun16(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519934_37 = makeNative(co->gc, 1, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
-Obj v__3520386_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520386_37) {
-Obj v__3520387_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520388_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520387_37);
-if (True == v__3520388_37) {
-Obj v__3520389_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519922_37 = makeNative(co->gc, 1, clofun15, 0, 3, closureRef(R[0], 0), closureRef(R[0], 1), closureRef(R[0], 2));
+Obj v__3520374_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520374_37) {
+Obj v__3520375_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520376_37 = PRIM_EQ(getBinding(co, packageID, 94).name, v__3520375_37);
+if (True == v__3520376_37) {
+Obj v__3520377_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520378_37 = PRIM_ISCONS(v__3520377_37);
+if (True == v__3520378_37) {
+Obj v__3520379_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520380_37 = PRIM_CAR(v__3520379_37);
+Obj v__3519936_37 = v__3520380_37;
+Obj v__3520381_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520382_37 = PRIM_CDR(v__3520381_37);
+Obj v__3520383_37 = PRIM_ISCONS(v__3520382_37);
+if (True == v__3520383_37) {
+Obj v__3520384_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520385_37 = PRIM_CDR(v__3520384_37);
+Obj v__3520386_37 = PRIM_CAR(v__3520385_37);
+Obj v__3519937_37 = v__3520386_37;
+Obj v__3520387_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520388_37 = PRIM_CDR(v__3520387_37);
+Obj v__3520389_37 = PRIM_CDR(v__3520388_37);
 Obj v__3520390_37 = PRIM_ISCONS(v__3520389_37);
 if (True == v__3520390_37) {
 Obj v__3520391_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520392_37 = PRIM_CAR(v__3520391_37);
-Obj v__3519948_37 = v__3520392_37;
-Obj v__3520393_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520394_37 = PRIM_CDR(v__3520393_37);
-Obj v__3520395_37 = PRIM_ISCONS(v__3520394_37);
-if (True == v__3520395_37) {
-Obj v__3520396_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520392_37 = PRIM_CDR(v__3520391_37);
+Obj v__3520393_37 = PRIM_CDR(v__3520392_37);
+Obj v__3520394_37 = PRIM_CAR(v__3520393_37);
+Obj v__3519938_37 = v__3520394_37;
+Obj v__3520395_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520396_37 = PRIM_CDR(v__3520395_37);
 Obj v__3520397_37 = PRIM_CDR(v__3520396_37);
-Obj v__3520398_37 = PRIM_CAR(v__3520397_37);
-Obj v__3519949_37 = v__3520398_37;
-Obj v__3520399_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520400_37 = PRIM_CDR(v__3520399_37);
-Obj v__3520401_37 = PRIM_CDR(v__3520400_37);
-Obj v__3520402_37 = PRIM_ISCONS(v__3520401_37);
-if (True == v__3520402_37) {
-Obj v__3520403_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520404_37 = PRIM_CDR(v__3520403_37);
-Obj v__3520405_37 = PRIM_CDR(v__3520404_37);
-Obj v__3520406_37 = PRIM_CAR(v__3520405_37);
-Obj v__3519950_37 = v__3520406_37;
-Obj v__3520407_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520408_37 = PRIM_CDR(v__3520407_37);
-Obj v__3520409_37 = PRIM_CDR(v__3520408_37);
-Obj v__3520410_37 = PRIM_CDR(v__3520409_37);
-Obj v__3520411_37 = PRIM_EQ(Nil, v__3520410_37);
-if (True == v__3520411_37) {
-Obj v__3520412_37 = primGenSym(co);
-Obj v__3519951_37 = v__3520412_37;
-R[1] = v__3519948_37;
-R[2] = v__3519950_37;
-R[3] = v__3519951_37;
+Obj v__3520398_37 = PRIM_CDR(v__3520397_37);
+Obj v__3520399_37 = PRIM_EQ(Nil, v__3520398_37);
+if (True == v__3520399_37) {
+Obj v__3520400_37 = primGenSym(co);
+Obj v__3519939_37 = v__3520400_37;
+R[1] = v__3519936_37;
+R[2] = v__3519938_37;
+R[3] = v__3519939_37;
 saveCont(co, clofun16, 2, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519949_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3519937_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3519922_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3519922_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3519922_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3519922_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3519922_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519934_37);
+coraCall0(co, v__3519922_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520416_37= co->res;
-Obj v__3520413_37 = R[1];
-Obj v__3519951_37 = R[2];
-Obj v__3520417_37 = makeCons(co->gc, v__3520416_37, Nil);
-Obj v__3520418_37 = makeCons(co->gc, v__3520413_37, v__3520417_37);
-Obj v__3520419_37 = makeCons(co->gc, v__3519951_37, v__3520418_37);
-Obj v__3520420_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520419_37);
-coraReturn(co, v__3520420_37);
+Obj v__3520404_37= co->res;
+Obj v__3520401_37 = R[1];
+Obj v__3519939_37 = R[2];
+Obj v__3520405_37 = makeCons(co->gc, v__3520404_37, Nil);
+Obj v__3520406_37 = makeCons(co->gc, v__3520401_37, v__3520405_37);
+Obj v__3520407_37 = makeCons(co->gc, v__3519939_37, v__3520406_37);
+Obj v__3520408_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520407_37);
+coraReturn(co, v__3520408_37);
 return;
 }
 case 2:
 {
-Obj v__3520413_37= co->res;
-Obj v__3519948_37 = R[1];
-Obj v__3519950_37 = R[2];
-Obj v__3519951_37 = R[3];
-Obj v__3520414_37 = makeCons(co->gc, v__3519948_37, v__3519951_37);
-Obj v__3520415_37 = makeCons(co->gc, v__3520414_37, closureRef(R[0], 1));
-R[1] = v__3520413_37;
-R[2] = v__3519951_37;
+Obj v__3520401_37= co->res;
+Obj v__3519936_37 = R[1];
+Obj v__3519938_37 = R[2];
+Obj v__3519939_37 = R[3];
+Obj v__3520402_37 = makeCons(co->gc, v__3519936_37, v__3519939_37);
+Obj v__3520403_37 = makeCons(co->gc, v__3520402_37, closureRef(R[0], 1));
+R[1] = v__3520401_37;
+R[2] = v__3519939_37;
 saveCont(co, clofun16, 1, R);
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), v__3520415_37, closureRef(R[0], 2), v__3519950_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), v__3520403_37, closureRef(R[0], 2), v__3519938_37);
 return;
 }
 }
@@ -8340,85 +8340,85 @@ static void clofun15(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519935_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
-Obj v__3520354_37 = PRIM_ISCONS(closureRef(R[0], 0));
+Obj v__3519923_37 = makeNative(co->gc, 3, clofun14, 0, 3, closureRef(R[0], 0), closureRef(R[0], 2), closureRef(R[0], 1));
+Obj v__3520342_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520342_37) {
+Obj v__3520343_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520344_37 = PRIM_ISCONS(v__3520343_37);
+if (True == v__3520344_37) {
+Obj v__3520345_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520346_37 = PRIM_CAR(v__3520345_37);
+Obj v__3520347_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520346_37);
+if (True == v__3520347_37) {
+Obj v__3520348_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520349_37 = PRIM_CDR(v__3520348_37);
+Obj v__3519933_37 = v__3520349_37;
+Obj v__3520350_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520351_37 = PRIM_ISCONS(v__3520350_37);
+if (True == v__3520351_37) {
+Obj v__3520352_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520353_37 = PRIM_CAR(v__3520352_37);
+Obj v__3520354_37 = PRIM_ISCONS(v__3520353_37);
 if (True == v__3520354_37) {
-Obj v__3520355_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520356_37 = PRIM_ISCONS(v__3520355_37);
-if (True == v__3520356_37) {
-Obj v__3520357_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520358_37 = PRIM_CAR(v__3520357_37);
-Obj v__3520359_37 = PRIM_EQ(getBinding(co, packageID, 97).name, v__3520358_37);
-if (True == v__3520359_37) {
-Obj v__3520360_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520355_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520356_37 = PRIM_CAR(v__3520355_37);
+Obj v__3520357_37 = PRIM_CAR(v__3520356_37);
+Obj v__3520358_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520357_37);
+if (True == v__3520358_37) {
+Obj v__3520359_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3520360_37 = PRIM_CAR(v__3520359_37);
 Obj v__3520361_37 = PRIM_CDR(v__3520360_37);
-Obj v__3519945_37 = v__3520361_37;
+Obj v__3519934_37 = v__3520361_37;
 Obj v__3520362_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520363_37 = PRIM_ISCONS(v__3520362_37);
-if (True == v__3520363_37) {
-Obj v__3520364_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520365_37 = PRIM_CAR(v__3520364_37);
-Obj v__3520366_37 = PRIM_ISCONS(v__3520365_37);
-if (True == v__3520366_37) {
-Obj v__3520367_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520368_37 = PRIM_CAR(v__3520367_37);
-Obj v__3520369_37 = PRIM_CAR(v__3520368_37);
-Obj v__3520370_37 = PRIM_EQ(getBinding(co, packageID, 86).name, v__3520369_37);
-if (True == v__3520370_37) {
-Obj v__3520371_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520372_37 = PRIM_CAR(v__3520371_37);
-Obj v__3520373_37 = PRIM_CDR(v__3520372_37);
-Obj v__3519946_37 = v__3520373_37;
-Obj v__3520374_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3520375_37 = PRIM_CDR(v__3520374_37);
-Obj v__3520376_37 = PRIM_EQ(Nil, v__3520375_37);
-if (True == v__3520376_37) {
-Obj v__3520377_37 = primGenSym(co);
-Obj v__3519947_37 = v__3520377_37;
-Obj v__3520378_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3519945_37);
-Obj v__3520379_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3519946_37);
-Obj v__3520380_37 = makeCons(co->gc, v__3520379_37, Nil);
-Obj v__3520381_37 = makeCons(co->gc, v__3519947_37, v__3520380_37);
-Obj v__3520382_37 = makeCons(co->gc, v__3520381_37, Nil);
-Obj v__3520383_37 = makeCons(co->gc, v__3520378_37, v__3520382_37);
-Obj v__3520384_37 = makeCons(co->gc, v__3519947_37, v__3520383_37);
-Obj v__3520385_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520384_37);
+Obj v__3520363_37 = PRIM_CDR(v__3520362_37);
+Obj v__3520364_37 = PRIM_EQ(Nil, v__3520363_37);
+if (True == v__3520364_37) {
+Obj v__3520365_37 = primGenSym(co);
+Obj v__3519935_37 = v__3520365_37;
+Obj v__3520366_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3519933_37);
+Obj v__3520367_37 = makeCons(co->gc, getBinding(co, packageID, 86).name, v__3519934_37);
+Obj v__3520368_37 = makeCons(co->gc, v__3520367_37, Nil);
+Obj v__3520369_37 = makeCons(co->gc, v__3519935_37, v__3520368_37);
+Obj v__3520370_37 = makeCons(co->gc, v__3520369_37, Nil);
+Obj v__3520371_37 = makeCons(co->gc, v__3520366_37, v__3520370_37);
+Obj v__3520372_37 = makeCons(co->gc, v__3519935_37, v__3520371_37);
+Obj v__3520373_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520372_37);
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520385_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 1), closureRef(R[0], 2), v__3520373_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519935_37);
+coraCall0(co, v__3519923_37);
 return;
 }
 }
@@ -8429,61 +8429,61 @@ static void clofun14(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519936_37 = makeNative(co->gc, 1, clofun12, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
-Obj v__3520336_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520336_37) {
-Obj v__3520337_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3519937_37 = v__3520337_37;
-Obj v__3520338_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519938_37 = v__3520338_37;
-Obj v__3519941_37 = makeNative(co->gc, 2, clofun13, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3519937_37, v__3519938_37, v__3519936_37);
-R[1] = v__3519937_37;
-R[2] = v__3519941_37;
+Obj v__3519924_37 = makeNative(co->gc, 1, clofun12, 0, 3, closureRef(R[0], 2), closureRef(R[0], 1), closureRef(R[0], 0));
+Obj v__3520324_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520324_37) {
+Obj v__3520325_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3519925_37 = v__3520325_37;
+Obj v__3520326_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519926_37 = v__3520326_37;
+Obj v__3519929_37 = makeNative(co->gc, 2, clofun13, 1, 5, closureRef(R[0], 2), closureRef(R[0], 1), v__3519925_37, v__3519926_37, v__3519924_37);
+R[1] = v__3519925_37;
+R[2] = v__3519929_37;
 saveCont(co, clofun14, 3, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3519937_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 105)), v__3519925_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519936_37);
+coraCall0(co, v__3519924_37);
 return;
 }
 }
 case 1:
 {
-Obj v__3520353_37= co->res;
-Obj v__3519941_37 = R[1];
-if (True == v__3520353_37) {
+Obj v__3520341_37= co->res;
+Obj v__3519929_37 = R[1];
+if (True == v__3520341_37) {
 co->ctx.sp = R;
-coraCall1(co, v__3519941_37, True);
+coraCall1(co, v__3519929_37, True);
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519941_37, False);
+coraCall1(co, v__3519929_37, False);
 return;
 }
 }
 case 2:
 {
-Obj v__3520352_37= co->res;
-Obj v__3519941_37 = R[1];
-R[1] = v__3519941_37;
+Obj v__3520340_37= co->res;
+Obj v__3519929_37 = R[1];
+R[1] = v__3519929_37;
 saveCont(co, clofun14, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520352_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520340_37);
 return;
 }
 case 3:
 {
-Obj v__3520351_37= co->res;
-Obj v__3519937_37 = R[1];
-Obj v__3519941_37 = R[2];
-if (True == v__3520351_37) {
-R[1] = v__3519941_37;
+Obj v__3520339_37= co->res;
+Obj v__3519925_37 = R[1];
+Obj v__3519929_37 = R[2];
+if (True == v__3520339_37) {
+R[1] = v__3519929_37;
 saveCont(co, clofun14, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519937_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519925_37, closureRef(R[0], 2));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, v__3519941_37, False);
+coraCall1(co, v__3519929_37, False);
 return;
 }
 }
@@ -8494,8 +8494,8 @@ static void clofun13(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519940_37 = R[1];
-if (True == v__3519940_37) {
+Obj v__3519928_37 = R[1];
+if (True == v__3519928_37) {
 saveCont(co, clofun13, 6, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 101)), closureRef(R[0], 2));
 return;
@@ -8507,55 +8507,55 @@ return;
 }
 case 1:
 {
-Obj v__3520345_37= co->res;
-Obj v__3520343_37 = R[1];
-Obj v__3520346_37 = makeCons(co->gc, v__3520343_37, v__3520345_37);
-coraReturn(co, v__3520346_37);
+Obj v__3520333_37= co->res;
+Obj v__3520331_37 = R[1];
+Obj v__3520334_37 = makeCons(co->gc, v__3520331_37, v__3520333_37);
+coraReturn(co, v__3520334_37);
 return;
 }
 case 2:
 {
-Obj v__3520344_37= co->res;
-Obj v__3520343_37 = R[1];
-R[1] = v__3520343_37;
+Obj v__3520332_37= co->res;
+Obj v__3520331_37 = R[1];
+R[1] = v__3520331_37;
 saveCont(co, clofun13, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520344_37, closureRef(R[0], 3));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520332_37, closureRef(R[0], 3));
 return;
 }
 case 3:
 {
-Obj v__3520350_37= co->res;
+Obj v__3520338_37= co->res;
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), v__3520350_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1), v__3520338_37);
 return;
 }
 case 4:
 {
-Obj v__3520349_37= co->res;
-Obj v__3519944_37 = v__3520349_37;
+Obj v__3520337_37= co->res;
+Obj v__3519932_37 = v__3520337_37;
 saveCont(co, clofun13, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 2), closureRef(R[0], 3), Nil, v__3519944_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 98)), closureRef(R[0], 2), closureRef(R[0], 3), Nil, v__3519932_37);
 return;
 }
 case 5:
 {
-Obj v__3520340_37= co->res;
-Obj v__3519942_37 = R[1];
-Obj v__3519943_37 = v__3520340_37;
-Obj v__3520341_37 = PRIM_EQ(v__3519942_37, v__3519943_37);
-if (True == v__3520341_37) {
-Obj v__3520342_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
-Obj v__3520343_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520342_37);
-R[1] = v__3520343_37;
+Obj v__3520328_37= co->res;
+Obj v__3519930_37 = R[1];
+Obj v__3519931_37 = v__3520328_37;
+Obj v__3520329_37 = PRIM_EQ(v__3519930_37, v__3519931_37);
+if (True == v__3520329_37) {
+Obj v__3520330_37 = makeCons(co->gc, closureRef(R[0], 2), Nil);
+Obj v__3520331_37 = makeCons(co->gc, getBinding(co, packageID, 87).name, v__3520330_37);
+R[1] = v__3520331_37;
 saveCont(co, clofun13, 2, R);
 coraCall2(co, globalRef(co, getBinding(co, packageID, 93)), closureRef(R[0], 0), closureRef(R[0], 1));
 return;
 } else {
-Obj v__3520347_37 = PRIM_GT(v__3519942_37, v__3519943_37);
-if (True == v__3520347_37) {
-Obj v__3520348_37 = PRIM_SUB(v__3519942_37, v__3519943_37);
+Obj v__3520335_37 = PRIM_GT(v__3519930_37, v__3519931_37);
+if (True == v__3520335_37) {
+Obj v__3520336_37 = PRIM_SUB(v__3519930_37, v__3519931_37);
 saveCont(co, clofun13, 4, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v__3520348_37, Nil);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v__3520336_37, Nil);
 return;
 } else {
 co->ctx.sp = R;
@@ -8566,9 +8566,9 @@ return;
 }
 case 6:
 {
-Obj v__3520339_37= co->res;
-Obj v__3519942_37 = v__3520339_37;
-R[1] = v__3519942_37;
+Obj v__3520327_37= co->res;
+Obj v__3519930_37 = v__3520327_37;
+R[1] = v__3519930_37;
 saveCont(co, clofun13, 5, R);
 coraCall1(co, globalRef(co, getBinding(co, packageID, 88)), closureRef(R[0], 3));
 return;
@@ -8586,9 +8586,9 @@ return;
 }
 case 1:
 {
-Obj v__3520335_37= co->res;
+Obj v__3520323_37= co->res;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520335_37, closureRef(R[0], 2));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 89)), v__3520323_37, closureRef(R[0], 2));
 return;
 }
 }
@@ -8598,31 +8598,31 @@ static void clofun11(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519271_37 = R[1];
-Obj v__3519272_37 = R[2];
-Obj v__3519273_37 = R[3];
-Obj v__3519274_37 = R[4];
-Obj v__3520308_37 = PRIM_EQ(Nil, v__3519272_37);
-if (True == v__3520308_37) {
-R[1] = v__3519271_37;
-R[2] = v__3519274_37;
+Obj v__3519259_37 = R[1];
+Obj v__3519260_37 = R[2];
+Obj v__3519261_37 = R[3];
+Obj v__3519262_37 = R[4];
+Obj v__3520296_37 = PRIM_EQ(Nil, v__3519260_37);
+if (True == v__3520296_37) {
+R[1] = v__3519259_37;
+R[2] = v__3519262_37;
 saveCont(co, clofun11, 2, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519273_37);
-return;
-} else {
-Obj v__3520315_37 = PRIM_ISCONS(v__3519272_37);
-if (True == v__3520315_37) {
-Obj v__3520316_37 = PRIM_CAR(v__3519272_37);
-Obj v__3519922_37 = v__3520316_37;
-Obj v__3520317_37 = PRIM_CDR(v__3519272_37);
-Obj v__3519923_37 = v__3520317_37;
-Obj v__3520318_37 = primGenSym(co);
-Obj v__3519924_37 = v__3520318_37;
-Obj v__3520319_37 = makeCons(co->gc, v__3519924_37, v__3519273_37);
-R[1] = v__3519922_37;
-R[2] = v__3519924_37;
+coraCall1(co, globalRef(co, getBinding(co, packageID, 95)), v__3519261_37);
+return;
+} else {
+Obj v__3520303_37 = PRIM_ISCONS(v__3519260_37);
+if (True == v__3520303_37) {
+Obj v__3520304_37 = PRIM_CAR(v__3519260_37);
+Obj v__3519910_37 = v__3520304_37;
+Obj v__3520305_37 = PRIM_CDR(v__3519260_37);
+Obj v__3519911_37 = v__3520305_37;
+Obj v__3520306_37 = primGenSym(co);
+Obj v__3519912_37 = v__3520306_37;
+Obj v__3520307_37 = makeCons(co->gc, v__3519912_37, v__3519261_37);
+R[1] = v__3519910_37;
+R[2] = v__3519912_37;
 saveCont(co, clofun11, 3, R);
-coraCall4(co, globalRef(co, getBinding(co, packageID, 98)), v__3519271_37, v__3519923_37, v__3520319_37, v__3519274_37);
+coraCall4(co, globalRef(co, getBinding(co, packageID, 98)), v__3519259_37, v__3519911_37, v__3520307_37, v__3519262_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8633,37 +8633,37 @@ return;
 }
 case 1:
 {
-Obj v__3520310_37= co->res;
-Obj v__3519271_37 = R[1];
-Obj v__3519274_37 = R[2];
-Obj v__3520311_37 = makeCons(co->gc, v__3519271_37, v__3520310_37);
-Obj v__3520312_37 = makeCons(co->gc, v__3520311_37, Nil);
-Obj v__3520313_37 = makeCons(co->gc, v__3519274_37, v__3520312_37);
-Obj v__3520314_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520313_37);
-coraReturn(co, v__3520314_37);
+Obj v__3520298_37= co->res;
+Obj v__3519259_37 = R[1];
+Obj v__3519262_37 = R[2];
+Obj v__3520299_37 = makeCons(co->gc, v__3519259_37, v__3520298_37);
+Obj v__3520300_37 = makeCons(co->gc, v__3520299_37, Nil);
+Obj v__3520301_37 = makeCons(co->gc, v__3519262_37, v__3520300_37);
+Obj v__3520302_37 = makeCons(co->gc, getBinding(co, packageID, 97).name, v__3520301_37);
+coraReturn(co, v__3520302_37);
 return;
 }
 case 2:
 {
-Obj v__3520309_37= co->res;
-Obj v__3519271_37 = R[1];
-Obj v__3519274_37 = R[2];
-R[1] = v__3519271_37;
-R[2] = v__3519274_37;
+Obj v__3520297_37= co->res;
+Obj v__3519259_37 = R[1];
+Obj v__3519262_37 = R[2];
+R[1] = v__3519259_37;
+R[2] = v__3519262_37;
 saveCont(co, clofun11, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3520309_37, v__3519274_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 96)), v__3520297_37, v__3519262_37);
 return;
 }
 case 3:
 {
-Obj v__3520320_37= co->res;
-Obj v__3519922_37 = R[1];
-Obj v__3519924_37 = R[2];
-Obj v__3520321_37 = makeCons(co->gc, v__3520320_37, Nil);
-Obj v__3520322_37 = makeCons(co->gc, v__3519922_37, v__3520321_37);
-Obj v__3520323_37 = makeCons(co->gc, v__3519924_37, v__3520322_37);
-Obj v__3520324_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520323_37);
-coraReturn(co, v__3520324_37);
+Obj v__3520308_37= co->res;
+Obj v__3519910_37 = R[1];
+Obj v__3519912_37 = R[2];
+Obj v__3520309_37 = makeCons(co->gc, v__3520308_37, Nil);
+Obj v__3520310_37 = makeCons(co->gc, v__3519910_37, v__3520309_37);
+Obj v__3520311_37 = makeCons(co->gc, v__3519912_37, v__3520310_37);
+Obj v__3520312_37 = makeCons(co->gc, getBinding(co, packageID, 94).name, v__3520311_37);
+coraReturn(co, v__3520312_37);
 return;
 }
 }
@@ -8673,18 +8673,18 @@ static void clofun10(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519269_37 = R[1];
-Obj v__3519270_37 = R[2];
-Obj v__3520303_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519269_37);
-if (True == v__3520303_37) {
-coraReturn(co, v__3519270_37);
+Obj v__3519257_37 = R[1];
+Obj v__3519258_37 = R[2];
+Obj v__3520291_37 = PRIM_EQ(MAKE_NUMBER(0), v__3519257_37);
+if (True == v__3520291_37) {
+coraReturn(co, v__3519258_37);
 return;
 } else {
-Obj v__3520304_37 = PRIM_SUB(v__3519269_37, MAKE_NUMBER(1));
-Obj v__3520305_37 = primGenSym(co);
-Obj v__3520306_37 = makeCons(co->gc, v__3520305_37, v__3519270_37);
+Obj v__3520292_37 = PRIM_SUB(v__3519257_37, MAKE_NUMBER(1));
+Obj v__3520293_37 = primGenSym(co);
+Obj v__3520294_37 = makeCons(co->gc, v__3520293_37, v__3519258_37);
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v__3520304_37, v__3520306_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 99)), v__3520292_37, v__3520294_37);
 return;
 }
 }
@@ -8695,31 +8695,31 @@ static void clofun9(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519267_37 = R[1];
+Obj v__3519255_37 = R[1];
 saveCont(co, clofun9, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519267_37, globalRef(co, getBinding(co, packageID, 123)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519255_37, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v__3520301_37= co->res;
-Obj v__3519921_37 = R[1];
-if (True == v__3520301_37) {
+Obj v__3520289_37= co->res;
+Obj v__3519909_37 = R[1];
+if (True == v__3520289_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519921_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 100)), v__3519909_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520300_37= co->res;
-Obj v__3519921_37 = v__3520300_37;
-R[1] = v__3519921_37;
+Obj v__3520288_37= co->res;
+Obj v__3519909_37 = v__3520288_37;
+R[1] = v__3519909_37;
 saveCont(co, clofun9, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519921_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519909_37);
 return;
 }
 }
@@ -8729,31 +8729,31 @@ static void clofun8(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519265_37 = R[1];
+Obj v__3519253_37 = R[1];
 saveCont(co, clofun8, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519265_37, globalRef(co, getBinding(co, packageID, 123)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519253_37, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v__3520298_37= co->res;
-Obj v__3519920_37 = R[1];
-if (True == v__3520298_37) {
+Obj v__3520286_37= co->res;
+Obj v__3519908_37 = R[1];
+if (True == v__3520286_37) {
 coraReturn(co, makeCString(co->gc, "ERROR"));
 return;
 } else {
 co->ctx.sp = R;
-coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 102)), v__3519908_37);
 return;
 }
 }
 case 2:
 {
-Obj v__3520297_37= co->res;
-Obj v__3519920_37 = v__3520297_37;
-R[1] = v__3519920_37;
+Obj v__3520285_37= co->res;
+Obj v__3519908_37 = v__3520285_37;
+R[1] = v__3519908_37;
 saveCont(co, clofun8, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519920_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3519908_37);
 return;
 }
 }
@@ -8763,23 +8763,23 @@ static void clofun7(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519264_37 = R[1];
+Obj v__3519252_37 = R[1];
 saveCont(co, clofun7, 2, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519264_37, globalRef(co, getBinding(co, packageID, 123)));
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), v__3519252_37, globalRef(co, getBinding(co, packageID, 123)));
 return;
 }
 case 1:
 {
-Obj v__3520294_37= co->res;
-Obj v__3520295_37 = primNot(v__3520294_37);
-coraReturn(co, v__3520295_37);
+Obj v__3520282_37= co->res;
+Obj v__3520283_37 = primNot(v__3520282_37);
+coraReturn(co, v__3520283_37);
 return;
 }
 case 2:
 {
-Obj v__3520293_37= co->res;
+Obj v__3520281_37= co->res;
 saveCont(co, clofun7, 1, R);
-coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520293_37);
+coraCall1(co, globalRef(co, getBinding(co, packageID, 104)), v__3520281_37);
 return;
 }
 }
@@ -8789,23 +8789,23 @@ static void clofun6(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519258_37 = R[1];
-Obj v__3519259_37 = R[2];
-Obj v__3520217_37 = PRIM_EQ(Nil, v__3519259_37);
-if (True == v__3520217_37) {
+Obj v__3519246_37 = R[1];
+Obj v__3519247_37 = R[2];
+Obj v__3520205_37 = PRIM_EQ(Nil, v__3519247_37);
+if (True == v__3520205_37) {
 coraReturn(co, False);
 return;
 } else {
-Obj v__3520218_37 = PRIM_ISCONS(v__3519259_37);
-if (True == v__3520218_37) {
-Obj v__3520219_37 = PRIM_CAR(v__3519259_37);
-Obj v__3519918_37 = v__3520219_37;
-Obj v__3520220_37 = PRIM_CDR(v__3519259_37);
-Obj v__3519919_37 = v__3520220_37;
-R[1] = v__3519258_37;
-R[2] = v__3519919_37;
+Obj v__3520206_37 = PRIM_ISCONS(v__3519247_37);
+if (True == v__3520206_37) {
+Obj v__3520207_37 = PRIM_CAR(v__3519247_37);
+Obj v__3519906_37 = v__3520207_37;
+Obj v__3520208_37 = PRIM_CDR(v__3519247_37);
+Obj v__3519907_37 = v__3520208_37;
+R[1] = v__3519246_37;
+R[2] = v__3519907_37;
 saveCont(co, clofun6, 1, R);
-coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3519258_37, v__3519918_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 125)), v__3519246_37, v__3519906_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8816,13 +8816,13 @@ return;
 }
 case 1:
 {
-Obj v__3520221_37= co->res;
-Obj v__3519258_37 = R[1];
-Obj v__3519919_37 = R[2];
-Obj v__3520222_37 = PRIM_LT(v__3520221_37, MAKE_NUMBER(0));
-if (True == v__3520222_37) {
+Obj v__3520209_37= co->res;
+Obj v__3519246_37 = R[1];
+Obj v__3519907_37 = R[2];
+Obj v__3520210_37 = PRIM_LT(v__3520209_37, MAKE_NUMBER(0));
+if (True == v__3520210_37) {
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519258_37, v__3519919_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 124)), v__3519246_37, v__3519907_37);
 return;
 } else {
 coraReturn(co, True);
@@ -8836,10 +8836,10 @@ static void clofun5(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519256_37 = R[1];
-Obj v__3519257_37 = R[2];
+Obj v__3519244_37 = R[1];
+Obj v__3519245_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), MAKE_NUMBER(0), v__3519256_37, v__3519257_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), MAKE_NUMBER(0), v__3519244_37, v__3519245_37);
 return;
 }
 }
@@ -8849,32 +8849,32 @@ static void clofun4(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519247_37 = R[1];
-Obj v__3519248_37 = R[2];
-Obj v__3519249_37 = R[3];
-Obj v__3520206_37 = PRIM_EQ(Nil, v__3519249_37);
-if (True == v__3520206_37) {
+Obj v__3519235_37 = R[1];
+Obj v__3519236_37 = R[2];
+Obj v__3519237_37 = R[3];
+Obj v__3520194_37 = PRIM_EQ(Nil, v__3519237_37);
+if (True == v__3520194_37) {
 coraReturn(co, MAKE_NUMBER(-1));
 return;
 } else {
-Obj v__3519915_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519249_37, v__3519247_37, v__3519248_37);
-Obj v__3520211_37 = PRIM_ISCONS(v__3519249_37);
-if (True == v__3520211_37) {
-Obj v__3520212_37 = PRIM_CAR(v__3519249_37);
-Obj v__3519917_37 = v__3520212_37;
-Obj v__3520213_37 = PRIM_CDR(v__3519249_37);
-Obj v__3520214_37 = PRIM_EQ(v__3519248_37, v__3519917_37);
-if (True == v__3520214_37) {
-coraReturn(co, v__3519247_37);
+Obj v__3519903_37 = makeNative(co->gc, 1, clofun3, 0, 3, v__3519237_37, v__3519235_37, v__3519236_37);
+Obj v__3520199_37 = PRIM_ISCONS(v__3519237_37);
+if (True == v__3520199_37) {
+Obj v__3520200_37 = PRIM_CAR(v__3519237_37);
+Obj v__3519905_37 = v__3520200_37;
+Obj v__3520201_37 = PRIM_CDR(v__3519237_37);
+Obj v__3520202_37 = PRIM_EQ(v__3519236_37, v__3519905_37);
+if (True == v__3520202_37) {
+coraReturn(co, v__3519235_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519915_37);
+coraCall0(co, v__3519903_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519915_37);
+coraCall0(co, v__3519903_37);
 return;
 }
 }
@@ -8886,14 +8886,14 @@ static void clofun3(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520207_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520207_37) {
-Obj v__3520208_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520209_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519916_37 = v__3520209_37;
-Obj v__3520210_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
+Obj v__3520195_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520195_37) {
+Obj v__3520196_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520197_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519904_37 = v__3520197_37;
+Obj v__3520198_37 = PRIM_ADD(closureRef(R[0], 1), MAKE_NUMBER(1));
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3520210_37, closureRef(R[0], 2), v__3519916_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 126)), v__3520198_37, closureRef(R[0], 2), v__3519904_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8908,24 +8908,24 @@ static void clofun2(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519240_37 = R[1];
-Obj v__3519241_37 = R[2];
-Obj v__3519242_37 = R[3];
-Obj v__3520200_37 = PRIM_EQ(Nil, v__3519242_37);
-if (True == v__3520200_37) {
-coraReturn(co, v__3519241_37);
+Obj v__3519228_37 = R[1];
+Obj v__3519229_37 = R[2];
+Obj v__3519230_37 = R[3];
+Obj v__3520188_37 = PRIM_EQ(Nil, v__3519230_37);
+if (True == v__3520188_37) {
+coraReturn(co, v__3519229_37);
 return;
 } else {
-Obj v__3520201_37 = PRIM_ISCONS(v__3519242_37);
-if (True == v__3520201_37) {
-Obj v__3520202_37 = PRIM_CAR(v__3519242_37);
-Obj v__3519913_37 = v__3520202_37;
-Obj v__3520203_37 = PRIM_CDR(v__3519242_37);
-Obj v__3519914_37 = v__3520203_37;
-R[1] = v__3519240_37;
-R[2] = v__3519914_37;
+Obj v__3520189_37 = PRIM_ISCONS(v__3519230_37);
+if (True == v__3520189_37) {
+Obj v__3520190_37 = PRIM_CAR(v__3519230_37);
+Obj v__3519901_37 = v__3520190_37;
+Obj v__3520191_37 = PRIM_CDR(v__3519230_37);
+Obj v__3519902_37 = v__3520191_37;
+R[1] = v__3519228_37;
+R[2] = v__3519902_37;
 saveCont(co, clofun2, 1, R);
-coraCall2(co, v__3519240_37, v__3519241_37, v__3519913_37);
+coraCall2(co, v__3519228_37, v__3519229_37, v__3519901_37);
 return;
 } else {
 co->ctx.sp = R;
@@ -8936,11 +8936,11 @@ return;
 }
 case 1:
 {
-Obj v__3520204_37= co->res;
-Obj v__3519240_37 = R[1];
-Obj v__3519914_37 = R[2];
+Obj v__3520192_37= co->res;
+Obj v__3519228_37 = R[1];
+Obj v__3519902_37 = R[2];
 co->ctx.sp = R;
-coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v__3519240_37, v__3520204_37, v__3519914_37);
+coraCall3(co, globalRef(co, getBinding(co, packageID, 127)), v__3519228_37, v__3520192_37, v__3519902_37);
 return;
 }
 }
@@ -8950,44 +8950,44 @@ static void clofun1(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3519230_37 = R[1];
-Obj v__3519231_37 = R[2];
-Obj v__3520185_37 = PRIM_EQ(Nil, v__3519231_37);
-if (True == v__3520185_37) {
+Obj v__3519218_37 = R[1];
+Obj v__3519219_37 = R[2];
+Obj v__3520173_37 = PRIM_EQ(Nil, v__3519219_37);
+if (True == v__3520173_37) {
 coraReturn(co, Nil);
 return;
 } else {
-Obj v__3519909_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3519231_37, v__3519230_37);
-Obj v__3520189_37 = PRIM_ISCONS(v__3519231_37);
-if (True == v__3520189_37) {
-Obj v__3520190_37 = PRIM_CAR(v__3519231_37);
-Obj v__3520191_37 = PRIM_ISCONS(v__3520190_37);
-if (True == v__3520191_37) {
-Obj v__3520192_37 = PRIM_CAR(v__3519231_37);
-Obj v__3520193_37 = PRIM_CAR(v__3520192_37);
-Obj v__3519911_37 = v__3520193_37;
-Obj v__3520194_37 = PRIM_CAR(v__3519231_37);
-Obj v__3520195_37 = PRIM_CDR(v__3520194_37);
-Obj v__3519912_37 = v__3520195_37;
-Obj v__3520196_37 = PRIM_CDR(v__3519231_37);
-Obj v__3520197_37 = PRIM_EQ(v__3519230_37, v__3519911_37);
-if (True == v__3520197_37) {
-Obj v__3520198_37 = makeCons(co->gc, v__3519911_37, v__3519912_37);
-coraReturn(co, v__3520198_37);
+Obj v__3519897_37 = makeNative(co->gc, 1, clofun0, 0, 2, v__3519219_37, v__3519218_37);
+Obj v__3520177_37 = PRIM_ISCONS(v__3519219_37);
+if (True == v__3520177_37) {
+Obj v__3520178_37 = PRIM_CAR(v__3519219_37);
+Obj v__3520179_37 = PRIM_ISCONS(v__3520178_37);
+if (True == v__3520179_37) {
+Obj v__3520180_37 = PRIM_CAR(v__3519219_37);
+Obj v__3520181_37 = PRIM_CAR(v__3520180_37);
+Obj v__3519899_37 = v__3520181_37;
+Obj v__3520182_37 = PRIM_CAR(v__3519219_37);
+Obj v__3520183_37 = PRIM_CDR(v__3520182_37);
+Obj v__3519900_37 = v__3520183_37;
+Obj v__3520184_37 = PRIM_CDR(v__3519219_37);
+Obj v__3520185_37 = PRIM_EQ(v__3519218_37, v__3519899_37);
+if (True == v__3520185_37) {
+Obj v__3520186_37 = makeCons(co->gc, v__3519899_37, v__3519900_37);
+coraReturn(co, v__3520186_37);
 return;
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519909_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519909_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 } else {
 co->ctx.sp = R;
-coraCall0(co, v__3519909_37);
+coraCall0(co, v__3519897_37);
 return;
 }
 }
@@ -8999,13 +8999,13 @@ static void clofun0(struct Cora* co, int label, Obj *R) {
  switch (label) {
 case 0:
 {
-Obj v__3520186_37 = PRIM_ISCONS(closureRef(R[0], 0));
-if (True == v__3520186_37) {
-Obj v__3520187_37 = PRIM_CAR(closureRef(R[0], 0));
-Obj v__3520188_37 = PRIM_CDR(closureRef(R[0], 0));
-Obj v__3519910_37 = v__3520188_37;
+Obj v__3520174_37 = PRIM_ISCONS(closureRef(R[0], 0));
+if (True == v__3520174_37) {
+Obj v__3520175_37 = PRIM_CAR(closureRef(R[0], 0));
+Obj v__3520176_37 = PRIM_CDR(closureRef(R[0], 0));
+Obj v__3519898_37 = v__3520176_37;
 co->ctx.sp = R;
-coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), v__3519910_37);
+coraCall2(co, globalRef(co, getBinding(co, packageID, 129)), closureRef(R[0], 1), v__3519898_37);
 return;
 } else {
 co->ctx.sp = R;
-- 
2.43.0

