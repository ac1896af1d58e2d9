From 92cb56e696fd7ccf86507491b31b36f43a32db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 01/46] fix: terminate the buffer and string builtin tables

Looking up a member they don't have scanned past the end of the table.
---
 src/lib/builtins/buffer.c | 1 +
 src/lib/builtins/random.c | 2 +-
 src/lib/builtins/string.c | 1 +
 src/lib/builtins/utils.c  | 2 +-
 src/lib/diagram.c         | 2 +-
 5 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index f2d1e0c..51f42fe 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -95,4 +95,5 @@ StaticMapSlot bins_buffer[] = {
     { "sliceUp", SM_FUNCT, .as_funct = bin_sliceUp, .argc = 3 },
     { "toString",   SM_FUNCT, .as_funct = bin_toString,   .argc = 1 },
     { "fromString", SM_FUNCT, .as_funct = bin_fromString, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d21daf3..d476569 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -39,4 +39,4 @@ StaticMapSlot bins_random[] = {
 	{"seed",     SM_FUNCT, .as_funct = bin_seed,     .argc = 1},
 	{"generate", SM_FUNCT, .as_funct = bin_generate, .argc = 2},
 	{ NULL, SM_END, {}, {} },
-};
\ No newline at end of file
+};
\ No newline at end of file
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 8f1d53d..58c044b 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -272,4 +272,5 @@ StaticMapSlot bins_string[] = {
     { "trim", SM_FUNCT, .as_funct = bin_trim, .argc = 1 },
     { "slice", SM_FUNCT, .as_funct = bin_slice, .argc = 3 },
     { "toInt", SM_FUNCT, .as_funct = bin_toInt, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 5fb3b2c..9e29103 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -181,4 +181,4 @@ int returnValues(Error *error, Heap *heap, Object *rets[static MAX_RETS], const
 	int retc = returnValuesVA(error, heap, rets, fmt, va);
 	va_end(va);
 	return retc;
-}
\ No newline at end of file
+}
\ No newline at end of file
diff --git a/src/lib/diagram.c b/src/lib/diagram.c
index d536884..b02dc3a 100644
--- a/src/lib/diagram.c
+++ b/src/lib/diagram.c
@@ -56,4 +56,4 @@ char *diagramStringAST(const char *str, Error *error,
 
 	Source_Free(source);
 	return out;
-}
\ No newline at end of file
+}
\ No newline at end of file
-- 
2.43.0


From 7c5199d375df547afefc9c515cd57cb8dd8b5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 02/46] fix: math.pow takes two arguments

Calling it with one made the callback read past the argument vector.
---
 src/lib/builtins/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index 6385e97..d820bc1 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -156,7 +156,7 @@ StaticMapSlot bins_math[] = {
 	{ "log",   SM_FUNCT, .as_funct = bin_log, .argc = 1, },
 	{ "log10", SM_FUNCT, .as_funct = bin_log10, .argc = 1, },
 
-	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 1, },
+	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 2, },
 	{ "sqrt", SM_FUNCT, .as_funct = bin_sqrt, .argc = 1, },
 	{ NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From 67ba5ebcaf74e1bc71fca2b3defb6d5e0bf1dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 03/46] fix: slice a buffer relative to its own window

The bounds were those of the whole payload, the offset of a slice being
sliced was ignored, and offset+length could wrap around.
---
 src/lib/objects/o_buffer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 63744f8..2423ea7 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -138,14 +138,15 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 		return NULL;
 	}
 
-	Payload *payload = ((BufferObject*) obj)->payload;
+	BufferObject *buffer = (BufferObject*) obj;
+	Payload *payload = buffer->payload;
 
-	if(offset >= payload->size) {
+	if(offset >= buffer->length) {
 		Error_Report(error, ErrorType_RUNTIME, "Offset out of range");
 		return NULL;
 	}
 
-	if(offset + length > payload->size) {
+	if(length > buffer->length - offset) {
 		Error_Report(error, ErrorType_RUNTIME, "Length out of range");
 		return NULL;
 	}
@@ -156,7 +157,7 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 
 	payload->refs++;
 	slice->payload = payload;
-	slice->offset = offset;
+	slice->offset = buffer->offset + offset;
 	slice->length = length;
 
 	return (Object*) slice;
-- 
2.43.0


From ac15b809b7d9d4d25fe826e0768ac0ba1afbea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 04/46] fix: copy the right number of bytes of a list's items
 when collecting

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 84af9c2..361b6bf 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -198,7 +198,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	ListObject *list = (ListObject*) self;
 	
-	callback((void**) &list->vals, sizeof(Object) * list->capacity, userp);
+	callback((void**) &list->vals, sizeof(Object*) * list->capacity, userp);
 }
 
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
-- 
2.43.0


From 606dcf4e4b2056faec191f05ee207ece8d74613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 05/46] fix: don't call the hash method of types that don't
 have one

Using a function, buffer, type etc. as a map key crashed.
---
 src/lib/objects/objects.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 53bb360..13a18f7 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -109,7 +109,14 @@ int Object_Hash(Object *obj)
 {
 	ASSERT(obj != NULL);
 	const TypeObject *type = Object_GetType(obj);
-	ASSERT(type != NULL && type->hash != NULL);
+	ASSERT(type != NULL);
+
+	if(type->hash == NULL)
+		// Not hashable. All objects of this type collide and
+		// it's up to [Object_Copy] and [Object_Compare] to
+		// report that they can't be used as keys.
+		return 0;
+
 	return type->hash(obj);
 }
 
-- 
2.43.0


From 45d38fb40559e373e9d040f0d9a89ee86d10e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 06/46] fix: don't use a native function object after its
 callback ran

The callback may have collected it (e.g. import). Also release the argument
vector when the call frame can't be pushed.
---
 src/lib/run.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 6277149..e305441 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -268,11 +268,18 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 		argc2 = -1;
 	}
 
-	if (!Runtime_PushNativeFrame(func->runtime, error))
-    	return -1;
+	// Need to save this before the callback runs since it
+	// may trigger a GC cycle invalidating the function object.
+	Runtime *runtime = func->runtime;
+
+	if (!Runtime_PushNativeFrame(runtime, error)) {
+		if(argv2 != argv)
+			free(argv2);
+		return -1;
+	}
 
 	ASSERT(func->callback != NULL);
-	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
 		
 	// NOTE: Since the callback may have executed some bytecode, a GC
 	//       cycle may have been triggered, therefore we must assume
@@ -282,7 +289,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	if(argv2 != argv)
 		free(argv2);
 
-	if (retc >= 0 && !Runtime_PopFrame(func->runtime))
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
     	return -1;
 
 	return retc;
-- 
2.43.0


From 5f93aa502d4199b5476ea39b30ffda00ff81e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:15 +0000
Subject: [PATCH 07/46] fix: release the argument vector when padding it fails

---
 src/lib/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index e305441..f92bf0d 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -82,7 +82,10 @@ static int func_call(Object *self, Object **argv, unsigned int argc, Object *ret
 			argv2[i] = Object_NewNone(heap, error);
 
 			if(argv2[i] == NULL)
+			{
+				free(argv2);
 				return -1;
+			}
 		}
 	}
 	else
-- 
2.43.0


From 32a0a03d5ce3377afc9f773fe9b29a5c13eb9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 08/46] fix: report integer overflows and modulo by zero

They raised a signal (division, modulo) or wrapped around silently, while
the documentation says that the program's execution is aborted.
---
 src/lib/run.c | 51 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index f92bf0d..73d0c1e 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -350,6 +350,36 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 	ASSERT(lop != NULL);
 	ASSERT(rop != NULL);
 
+	// Integer operations abort the program when their 
+	// result doesn't fit.
+	#define APPLY_INT(x, y, z) 							\
+	{ 													\
+		bool overflow = false; 							\
+		switch(opcode)									\
+		{												\
+			case OPCODE_ADD: overflow = __builtin_add_overflow((x), (y), &(z)); break; \
+			case OPCODE_SUB: overflow = __builtin_sub_overflow((x), (y), &(z)); break; \
+			case OPCODE_MUL: overflow = __builtin_mul_overflow((x), (y), &(z)); break; \
+			case OPCODE_DIV: 							\
+			if((y) == 0) 								\
+			{ 											\
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero"); \
+				return NULL; 							\
+			} 											\
+			if((y) == -1) 								\
+				overflow = __builtin_sub_overflow(0, (x), &(z)); \
+			else 										\
+				(z) = (x) / (y); 						\
+			break;										\
+			default: UNREACHABLE; break;				\
+		} 												\
+		if(overflow) 									\
+		{ 												\
+			Error_Report(error, ErrorType_RUNTIME, "Integer overflow"); \
+			return NULL; 								\
+		} 												\
+	}
+
 	#define APPLY(x, y, z, id) 							\
 		switch(opcode)									\
 		{												\
@@ -378,7 +408,7 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 			// int + int
 			long long int raw_rop = Object_GetInt(rop);
 			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
+			APPLY_INT(raw_lop, raw_rop, raw_res)
 			res = Object_FromInt(raw_res, heap, error);
 		}
 		else if(Object_IsFloat(rop))
@@ -428,6 +458,7 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 	}
 
 	#undef APPLY
+	#undef APPLY_INT
 
 	return res;
 }
@@ -553,7 +584,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if(Object_IsInt(top))
 			{
 				long long n = Object_GetInt(top);
-				top = Object_FromInt(-n, heap, error);
+				if(__builtin_sub_overflow(0, n, &n))
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+					return 0;
+				}
+				top = Object_FromInt(n, heap, error);
 			}
 			else if(Object_IsFloat(top))
 			{
@@ -651,7 +687,16 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			long long int x, y, z;
 			y = Object_GetInt(objs[0]);
 			x = Object_GetInt(objs[1]);
-			z = x % y;
+
+			if(y == 0)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+
+			// The remainder is zero when the divisor is -1, but
+			// the division overflows if [x] is the smallest int.
+			z = (y == -1) ? 0 : x % y;
 
 			Object *res = Object_FromInt(z, heap, error);
 			if(res == NULL)
-- 
2.43.0


From 373daa3516143c0fabeaa2d1b29428500e04d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 09/46] fix: a type mismatch isn't an error by itself

Testing a list or map type against a value with less items left an error
behind, so istypeof and argument checks failed spuriously.
---
 src/lib/builtins/basic.c | 3 +++
 src/lib/objects/o_list.c | 9 +++++++--
 src/lib/objects/o_map.c  | 9 +++++++--
 src/lib/run.c            | 4 ++++
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 789947f..e281a10 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -272,6 +272,9 @@ static int bin_istypeof(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	
 	Heap *heap = Runtime_GetHeap(runtime);
 	bool yes = Object_IsTypeOf(argv[0], argv[1], heap, error);
+	if (error->occurred)
+		return -1;
+
 	Object *o_yes = Object_FromBool(yes, heap, error);
 	if (o_yes == NULL)
 		return -1;
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 361b6bf..59ee000 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -84,9 +84,14 @@ istypeof(Object *self,
 
     	Object *val = list->vals[i];
     	
-    	Object *val2 = Object_Select(other, key, heap, error);
-    	if (val2 == NULL)
+    	Error dummy;
+    	Error_Init(&dummy); // A missing item isn't a failure, it's just a mismatch.
+
+    	Object *val2 = Object_Select(other, key, heap, &dummy);
+    	if (val2 == NULL) {
+    		Error_Free(&dummy);
     		return false;
+    	}
     	
     	if (!Object_IsTypeOf(val, val2, heap, error))
     		return false;
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index a57f97c..e74c464 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -92,9 +92,14 @@ istypeof(Object *self,
     	Object *key = map->keys[i];
     	Object *val = map->vals[i];
     	
-    	Object *val2 = Object_Select(other, key, heap, error);
-    	if (val2 == NULL)
+    	Error dummy;
+    	Error_Init(&dummy); // A missing item isn't a failure, it's just a mismatch.
+
+    	Object *val2 = Object_Select(other, key, heap, &dummy);
+    	if (val2 == NULL) {
+    		Error_Free(&dummy);
     		return false;
+    	}
     	
     	if (!Object_IsTypeOf(val, val2, heap, error))
     		return false;
diff --git a/src/lib/run.c b/src/lib/run.c
index 73d0c1e..b22687a 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -791,6 +791,10 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				return 0;
 
 			if (!Object_IsTypeOf(typ, arg, heap, error)) {
+
+				if (error->occurred)
+					return 0;
+
 				char provided[512];
 				char allowed[512];
 				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
-- 
2.43.0


From db990f88abda84c13ce4171e51e23ed770d95fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 10/46] fix: terminate the text of an argument type error

The buffers weren't terminated when the printed object didn't fit, and the
streams were used even if they couldn't be opened.
---
 src/lib/run.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index b22687a..b482687 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -795,15 +795,20 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				if (error->occurred)
 					return 0;
 
-				char provided[512];
-				char allowed[512];
-				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
-				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
-				// TODO: Check for errors from [fmemopen]
-				Object_Print(typ, allowed_fp);
-				Object_Print(arg, provided_fp);
-				fclose(allowed_fp);
-				fclose(provided_fp);
+				char provided[512] = "";
+				char allowed[512] = "";
+				// The last byte is left out of the streams so that
+				// the buffers are always zero-terminated.
+				FILE *provided_fp = fmemopen(provided, sizeof(provided)-1, "wb");
+				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed)-1, "wb");
+				if (allowed_fp != NULL) {
+					Object_Print(typ, allowed_fp);
+					fclose(allowed_fp);
+				}
+				if (provided_fp != NULL) {
+					Object_Print(arg, provided_fp);
+					fclose(provided_fp);
+				}
 				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
 							 arg_index+1, arg_name, allowed, provided);
 				return 0;
-- 
2.43.0


From cebf2a9291291eeebf01b58a4ff287c7ccbc68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 11/46] fix: refuse to create buffers of a negative or huge
 size

The allocation size wrapped around and the clearing wrote out of bounds.
Also release the payload when the object can't be allocated.
---
 src/lib/builtins/buffer.c  | 6 ++++++
 src/lib/objects/o_buffer.c | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 51f42fe..f605e1d 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -17,6 +17,12 @@ static int bin_new(Runtime *runtime, Object **argv, unsigned int argc, Object *r
     
     long long int size = Object_GetInt(argv[0]);
 
+    if(size < 0)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Buffer size must be non-negative");
+        return -1;
+    }
+
     Object *temp = Object_NewBuffer(size, Runtime_GetHeap(runtime), error);
     
     if(temp == NULL)
diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 2423ea7..fd93a1e 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "objects.h"
@@ -93,7 +94,7 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 	// Make the thing.
 	BufferObject *obj;
 	{
-		Payload *payload = malloc(sizeof(Payload) + size);
+		Payload *payload = (size > INT_MAX) ? NULL : malloc(sizeof(Payload) + size);
 		if(payload == NULL)
 		{
 			Error_Report(error, ErrorType_INTERNAL, "No memory");
@@ -104,8 +105,10 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 		memset(payload->body, 0, size);
 
 		obj = (BufferObject*) Heap_Malloc(heap, &t_buffer, error);
-		if(obj == NULL)
+		if(obj == NULL) {
+			free(payload);
 			return NULL;
+		}
 
 		obj->payload = payload;
 		obj->offset = 0;
-- 
2.43.0


From 840ac730843c0bc0f541f28e4640e98d43234d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 12/46] fix: don't truncate indices before checking their range

An index like 2^32 aliased the first item.
---
 src/lib/objects/o_buffer.c | 4 ++--
 src/lib/objects/o_list.c   | 4 ++--
 src/lib/objects/o_string.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index fd93a1e..fdf7dd9 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -195,7 +195,7 @@ static Object *buffer_select(Object *self, Object *key, Heap *heap, Error *error
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	BufferObject *buffer = (BufferObject*) self;
 
@@ -234,7 +234,7 @@ static _Bool buffer_insert(Object *self, Object *key, Object *val, Heap *heap, E
 		Error_Report(error, ErrorType_RUNTIME, "Non integer value");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 	long long int qword = Object_GetInt(val);
 	if(idx < 0 || (size_t) idx >= buffer->length)
 	{
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 59ee000..b7f49ff 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -221,7 +221,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	ListObject *list = (ListObject*) self;
 
@@ -275,7 +275,7 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	if(idx < 0 || idx > list->count)
 	{
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index d774c01..9f70126 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -99,7 +99,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		Error_Report(error, ErrorType_RUNTIME, "Non integer key");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	StringObject *str = (StringObject*) self;
 
-- 
2.43.0


From b79a6c503e9154a5f921f45d01acc8cc55137b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 13/46] fix: string.trim reads past the end of the string,
 string.chr truncates

---
 src/lib/builtins/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 58c044b..adfa0ee 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -61,9 +61,9 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
     char buff[32];
     
-    int value = Object_GetInt(argv[0]);
+    long long int value = Object_GetInt(argv[0]);
     
-    int k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
+    int k = (value < 0 || value > UINT32_MAX) ? -1 : utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
 
     if(k<0)
     {
@@ -203,7 +203,6 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
     size_t      srclen = pargs[0].as_string.size;
 
     size_t offset = 0;
-    size_t length = srclen;
 
     while (offset < srclen && srcstr[offset] == ' ')
         offset++;
@@ -220,6 +219,7 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
         // NOTE: The string doesn't contain only
         //       whitespace, so the length can't
         //       go under 1.
+        size_t length = srclen - offset;
         while (srcstr[offset + length - 1] == ' ')
             length--;
 
-- 
2.43.0


From 948cf0e00792ac1e11d3906599a0c72a7a750685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 14/46] fix: don't truncate the byte counts given to read,
 write, recv and send

---
 src/lib/builtins/files.c | 6 +++---
 src/lib/builtins/net.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index ff18b96..587c36b 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -122,7 +122,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	dstptr = pargs[1].as_buffer.data;
 	dstlen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
@@ -158,14 +158,14 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 	srcptr = pargs[1].as_buffer.data;
 	srclen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
 		}
 		count = MIN((size_t) n, srclen);
 	} else
-		count = (int) srclen;
+		count = srclen;
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index fbeb267..bc3bb56 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -108,7 +108,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, dstlen);
@@ -138,7 +138,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, srclen);
-- 
2.43.0


From 6ac9e57f7c7429a51a8ed045daf0182287118d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 15/46] fix: return integers wider than an int from builtins
 untruncated

string.toInt, random.generate, read, write, recv and send passed 64 bit
values to a format specifier that reads an int.
---
 src/lib/builtins/files.c  | 4 ++--
 src/lib/builtins/net.c    | 4 ++--
 src/lib/builtins/random.c | 2 +-
 src/lib/builtins/string.c | 2 +-
 src/lib/builtins/utils.c  | 1 +
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 587c36b..e45ad2b 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -133,7 +133,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t n = fread(dstptr, 1, count, stream);
 	
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "I", (long long int) n);
 }
 
 static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -169,7 +169,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "I", (long long int) n);
 }
 
 static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index bc3bb56..bbfe43c 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -118,7 +118,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = recv(fd, dstptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "I", (long long int) res);
 }
 
 static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -148,7 +148,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = send(fd, srcptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "I", (long long int) res);
 }
 
 static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d476569..453510b 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -32,7 +32,7 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
 	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
-	return returnValues2(error, runtime, rets, "i", value);
+	return returnValues2(error, runtime, rets, "I", (long long int) value);
 }
 
 StaticMapSlot bins_random[] = {
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index adfa0ee..dae8f76 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -262,7 +262,7 @@ static int bin_toInt(Runtime *runtime, Object **argv, unsigned int argc, Object
         // be considered an integer.
         return returnValues2(error, runtime, rets, "ns", "String doesn't contain an integer");
     
-    return returnValues2(error, runtime, rets, "i", result);
+    return returnValues2(error, runtime, rets, "I", (long long int) result);
 }
 
 StaticMapSlot bins_string[] = {
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 9e29103..2a41a24 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -15,6 +15,7 @@ int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], cons
 			case 'o': ret = va_arg(va, Object*); break;
 			case 'n': ret = Object_NewNone(heap, error); break;
 			case 'i': ret = Object_FromInt  (va_arg(va, int),    heap, error); break;
+			case 'I': ret = Object_FromInt  (va_arg(va, long long int), heap, error); break;
 			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
 			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
 			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-- 
2.43.0


From 15a46be7977daebba916e5363c7f32fed772b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:07 +0000
Subject: [PATCH 16/46] fix: mark parsed map arguments as defined

---
 src/lib/builtins/utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 2a41a24..f661246 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -123,6 +123,7 @@ bool parseArgs(Error *error,
 					Error_Report(error, ErrorType_RUNTIME, "Argument %d was expected to be a map, but a %s was provided", current_arg+1, arg->type->name);
 					return false;
 				}
+				pargs[current_arg].defined = true;
 				break;
 
 				case 's': /* String */
-- 
2.43.0


From fa12655a425b3590f25be7c3d33b2cd9f7810af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 17/46] fix: files.openFile crashes on invalid modes and may
 leak the stream

---
 src/lib/builtins/files.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index e45ad2b..2a94235 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -73,9 +73,8 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			break;
 
 			default:
-			UNREACHABLE;
-			mode2 = NULL;
-			break;
+			Error_Report(error, ErrorType_RUNTIME, "Invalid file opening mode %d", mode);
+			return -1;
 		}
 
 		fp = fopen(path, mode2);
@@ -97,7 +96,11 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			return returnValues(error, heap, rets, "ns", errdesc);
 		}
 	}
-	return returnValues(error, heap, rets, "F", fp);
+
+	int retc = returnValues(error, heap, rets, "F", fp);
+	if (retc < 0)
+		fclose(fp);
+	return retc;
 }
 
 static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-- 
2.43.0


From 6c51c1d2d7591a8e6f1587a32b883d3b2c55362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 18/46] fix: input() never returns at the end of the stream and
 reallocates a stack buffer

---
 src/lib/builtins/basic.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index e281a10..90ad6d7 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -178,15 +178,15 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	while(1)
 	{
-		char c = getc(Runtime_GetInputStream(runtime));
+		int c = getc(Runtime_GetInputStream(runtime));
 
-		if(c == '\n')
+		if(c == '\n' || c == EOF)
 			break;
 
 		if(size == cap)
 		{
 			int newcap = cap*2;
-			char *tmp = realloc(str, newcap + 1);
+			char *tmp = realloc(str == maybe ? NULL : str, newcap + 1);
 
 			if(tmp == NULL)
 			{
@@ -195,6 +195,9 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 				return -1;
 			}
 
+			if(str == maybe)
+				memcpy(tmp, maybe, size);
+
 			str = tmp;
 			cap = newcap;
 		}
-- 
2.43.0


From 694b2567ee7ebade6ee6ba370d6feb0bd06ed068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 19/46] fix: report allocation failures of the heap, don't
 overflow the usage counter

---
 src/lib/objects/heap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 77c3659..bdecb11 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -292,7 +292,7 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	padding = heap->used - padding;
 
-	if(heap->used + size > heap->size)
+	if(size > heap->size - heap->used)
 	{
 		if(heap->collecting)
 		{
@@ -303,7 +303,10 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
 		
 		if(oflow == 0)
-			return 0;
+		{
+			Error_Report(err, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
 
 		oflow->prev = heap->oflow;
 		heap->oflow = oflow;
-- 
2.43.0


From 8b9792182985c4298f4a383736f0bf7271768cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 20/46] fix: a failing destructor is called twice and leaves
 the collection unfinished

---
 src/lib/objects/heap.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index bdecb11..0db76d1 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -358,7 +358,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 	return 1;
 }
 
-static bool callDestructors(Heap *heap)
+static void callDestructors(Heap *heap)
 {
 	int i = 0;
 
@@ -375,13 +375,23 @@ static bool callDestructors(Heap *heap)
 		{
 			// We need to call the destructor.
 
-			heap->pend[i].destructor(obj, heap->error);
-					
-			if(heap->error->occurred) 
-				return false; // There will be leaks.
-			
+			Error suberror;
+			Error_Init(&suberror);
+
+			heap->pend[i].destructor(obj, &suberror);
+
+			// Whether it failed or not, the destructor
+			// must not be called on this object again.
 			heap->pend[i] = heap->pend[heap->pend_used-1];
 			heap->pend_used -= 1;
+
+			if(suberror.occurred)
+			{
+				if(!heap->error->occurred)
+					Error_Report(heap->error, suberror.type, "%s", suberror.message);
+				Error_Free(&suberror);
+				heap->collection_failed = 1;
+			}
 		}
 	}
 
@@ -396,8 +406,6 @@ static bool callDestructors(Heap *heap)
 			heap->pend_size /= 2;
 		}
 	}
-
-	return true;
 }
 
 static void freeOverflowAllocations(Heap *heap)
@@ -414,9 +422,8 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
-	if(!callDestructors(heap))
-		return false;
-	
+	callDestructors(heap);
+
 	freeOverflowAllocations(heap);
 
 	free(heap->old_body);
-- 
2.43.0


From 97b01ca7e0562286ca30d70ba15f27d121c621b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 21/46] fix: returning more than MAX_RETS values reads past the
 return buffer

---
 src/lib/run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index b482687..78457b1 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1186,7 +1186,11 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
     // Get return values
     int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
     	rets[i] = Runtime_Top(runtime, i-retc+1);
 
     if (!Runtime_PopFrame(runtime))
-- 
2.43.0


From fe46d75da7ba65e6caeb6e5a1d0bcd7c378ee18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 22/46] fix: code generation errors are located through an
 uninitialized pointer

---
 src/lib/compiler/codegen.c    |  3 +--
 src/lib/compiler/codegenctx.c | 10 +++++++---
 src/lib/compiler/codegenctx.h |  2 +-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 586650c..2b04de1 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -768,10 +768,9 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 
 	jmp_buf env;
 
-	CodegenContext *ctx = CodegenContext_New(error, alloc);
+	CodegenContext *ctx = CodegenContext_New(error, error_offset, alloc);
 	if(ctx == NULL) {
 		*error_offset = 0;
-		Error_Report(error, ErrorType_INTERNAL, "No memory");
 		return NULL;
 	}
 
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dfb3a03..313122e 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -74,14 +74,14 @@ void CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env)
     ctx->env_set = true;
 }
 
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc)
 {
     bool own_alloc;
     if(alloc == NULL) {
         alloc = BPAlloc_Init(-1);
         if(alloc == NULL) {
             Error_Report(error, ErrorType_INTERNAL, "No memory");
-            return false;
+            return NULL;
         }
         own_alloc = true;
     } else {
@@ -98,12 +98,14 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
 
     ExeBuilder *builder = ExeBuilder_New(alloc);
     if(builder == NULL) {
-        if(ctx->own_alloc)
+        if(own_alloc)
             BPAlloc_Free(alloc);
+        Error_Report(error, ErrorType_INTERNAL, "No memory");
         return NULL;
     }
 
     ctx->error = error;
+    ctx->error_offset = error_offset;
     ctx->alloc = alloc;
     ctx->builder = builder;
     ctx->env_set = false;
@@ -127,6 +129,7 @@ Executable *CodegenContext_MakeExecutableAndFree(CodegenContext *ctx, Source *sr
 {
     Executable *exe = ExeBuilder_Finalize(ctx->builder, ctx->error);
     if(exe == NULL) {
+        *ctx->error_offset = -1;
         okNowJump(ctx);
         UNREACHABLE;
     }
@@ -141,6 +144,7 @@ Executable *CodegenContext_MakeExecutableAndFree(CodegenContext *ctx, Source *sr
 void CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len)
 {
     if(!ExeBuilder_Append(ctx->builder, ctx->error, opcode, opv, opc, off, len)) {
+        *ctx->error_offset = off;
         okNowJump(ctx);
         UNREACHABLE;
     }
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index bfd5c37..3d7b185 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -4,7 +4,7 @@
 #include "../executable.h"
 
 typedef struct CodegenContext CodegenContext;
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc);
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc);
 void            CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len);
 void            CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env);
 void            CodegenContext_Free(CodegenContext *ctx);
-- 
2.43.0


From 9a7e85fac5ecb7fd413416cd8bff24e4f116115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 23/46] fix: the parser walks past the end of sources ending
 inside a map literal

---
 src/lib/compiler/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 274d006..8621217 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1001,6 +1001,13 @@ static Node *parse_map_primary_expression(Context *ctx)
 
 			bool item_is_func_decl = false;
 
+			if(done(ctx))
+			{
+				*ctx->error_offset = ctx->token->offset;
+				Error_Report(ctx->error, ErrorType_SYNTAX, "Source ended where a map child item's key was expected");
+				return NULL;
+			}
+
 			if (current(ctx) == TKWFUN) 
 			{
 				FuncDeclNode *func = parse_function_definition(ctx);
-- 
2.43.0


From 8a32fdfa3dc0663754f8c42404c5d68435b0ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 24/46] fix: report and locate every allocation failure of the
 parser

---
 src/lib/compiler/parse.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 8621217..0482196 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -450,8 +450,11 @@ AST *parse(Source *src, BPAlloc *alloc, Error *error, int *error_offset)
 	AST *ast = BPAlloc_Malloc(alloc, sizeof(AST));
 
 	if(ast == NULL)
-		#warning "should an error be reported here?"
+	{
+		*error_offset = -1;
+		Error_Report(error, ErrorType_INTERNAL, "No memory");
 		return NULL;
+	}
 
 	Token *tokens = tokenize(src, alloc, error, error_offset);
 
@@ -1651,7 +1654,11 @@ static Node *parse_prefix_expression(Context *ctx)
 			OperExprNode *temp = BPAlloc_Malloc(ctx->alloc, sizeof(OperExprNode));
 			{
 				if(temp == NULL)
+				{
+					*ctx->error_offset = ctx->token->offset;
+					Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 					return NULL;
+				}
 
 				temp->base.base.kind = NODE_EXPR;
 				temp->base.base.next = NULL;
@@ -1782,6 +1789,7 @@ static Node *parse_expression_2(Context *ctx, Node *left_expr, int min_prec, _Bo
 
 			if(temp == NULL)
 			{
+				*ctx->error_offset = ctx->token->offset;
 				Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 				return NULL;
 			}
-- 
2.43.0


From 17ce899a285d9ff6e62c372eb439c42cf5c767f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 25/46] fix: terminate sources made from strings, don't
 tokenize past their end

---
 src/lib/compiler/parse.c | 2 +-
 src/lib/utils/source.c   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 0482196..07a951c 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -292,7 +292,7 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 				while(i < len && str[i] != '\\' && str[i] != f)
 					i += 1;
 
-				if(str[i] == '\\')
+				if(i < len && str[i] == '\\')
 				{
 					i += 1; // Consume the \.
 					if(i < len && (str[i] == '\'' || str[i] == '"' || str[i] == '\\'))
diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index c4f3de1..13eb78a 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -214,5 +214,6 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 		s->name = NULL;
 	
 	strncpy(s->body, body, size);
+	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From b17b69c8254445dcf7afd1d37ab83a5d40f3fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 26/46] fix: the assembler carries on after a missing opcode or
 operand

---
 src/lib/assembler/assemble.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index f373e7f..8290993 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -59,7 +59,7 @@ static bool parseLabelAndOpcode(Context *ctx, bool *no_label,
             // ERROR: Missing opcode
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SYNTAX, "Missing opcode");
-            #warning "should there be a return here?"
+            return false;
         }
         
         label_or_opcode.offset = ctx->cur;
@@ -209,7 +209,7 @@ static bool parseIntegerOperand(Context *ctx, Error *error, Operand *op)
         // Will this overflow?
         if(buffer > (LLONG_MAX - d) / 10) {
             *ctx->error_offset = ctx->cur;
-            Error_Report(error, ErrorType_SEMANTIC, "Integer literal is too big to be represented in %d bits", 8*sizeof(buffer));
+            Error_Report(error, ErrorType_SEMANTIC, "Integer literal is too big to be represented in %d bits", (int) (8*sizeof(buffer)));
             return false;
         }
 
@@ -371,6 +371,12 @@ static bool parseOperands(Context *ctx, BPAlloc *alloc, Error *error,
 
             // Skip the spaces before the next operand
             skipSpaces(ctx);
+
+            if(ctx->cur == ctx->len) {
+                *ctx->error_offset = ctx->cur;
+                Error_Report(error, ErrorType_SYNTAX, "End of source where an operand was expected");
+                return false;
+            }
         }
     assert(ctx->cur == ctx->len || ctx->str[ctx->cur] == ';');
     return true;
@@ -467,13 +473,15 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
     size_t unresolved_count = LabelList_GetUnresolvedCount(list);
     if(unresolved_count > 0) {
         *error_offset = -1;
-        Error_Report(error, ErrorType_SEMANTIC, "%d unresolved labels", unresolved_count);
+        Error_Report(error, ErrorType_SEMANTIC, "%d unresolved labels", (int) unresolved_count);
         goto done;
     }
 
     exe = ExeBuilder_Finalize(builder, error);
     
-    if(exe != NULL)
+    if(exe == NULL)
+        *error_offset = -1;
+    else
         (void) Executable_SetSource(exe, src);
 
 done:
-- 
2.43.0


From 76db2c8afc0bf9a1ad38b6b107bf274fdf5c4401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 27/46] fix: net.socket leaks the descriptor when it fails

---
 src/lib/builtins/net.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index bbfe43c..703f2b1 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -26,11 +26,17 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	
 	if (reuse) {
 		int value = 1;
-		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0)
-			return returnValues2(error, runtime, rets, "ns", strerror(errno));
+		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0) {
+			int errcode = errno;
+			close(fd);
+			return returnValues2(error, runtime, rets, "ns", strerror(errcode));
+		}
 	}
 
-	return returnValues2(error, runtime, rets, "i", fd);
+	int retc = returnValues2(error, runtime, rets, "i", fd);
+	if (retc < 0)
+		close(fd);
+	return retc;
 }
 
 static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
-- 
2.43.0


From c5d7d71437b5b228c5fcd06d7524f87a3e7223a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 28/46] fix: print the whole stack trace to the requested
 stream

---
 src/lib/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 53fd5ea..28ff69a 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -216,7 +216,7 @@ void Runtime_PrintStackTrace(Runtime *runtime, FILE *stream)
 	fprintf(stream, "Stack trace:\n");
 	Frame *frame = runtime->frame;
 	if (frame == NULL)
-		fprintf(stderr, "\t(No active frames)\n");
+		fprintf(stream, "\t(No active frames)\n");
 	else {
 		size_t depth = 0;
 		do {
-- 
2.43.0


From b06d890c8a68b771a07d25d26cd93409ee0303ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 29/46] fix: Error_Print ignores the type of unspecified errors

---
 src/lib/utils/error.c | 2 +-
 src/lib/utils/error.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/error.c b/src/lib/utils/error.c
index 4feb7f5..4dc1959 100644
--- a/src/lib/utils/error.c
+++ b/src/lib/utils/error.c
@@ -144,7 +144,7 @@ void Error_Print(Error *error, ErrorType type_if_unspecified, FILE *stream)
         type = type_if_unspecified;
 
     const char *name;
-    switch (error->type) {
+    switch (type) {
         case ErrorType_INTERNAL: name = "Internal Error"; break;
         case ErrorType_SYNTAX:   name =   "Syntax Error"; break;
         case ErrorType_SEMANTIC: name = "Semantic Error"; break;
diff --git a/src/lib/utils/error.h b/src/lib/utils/error.h
index 4a5ddaf..e8cadef 100644
--- a/src/lib/utils/error.h
+++ b/src/lib/utils/error.h
@@ -39,7 +39,7 @@ typedef enum {
 	ErrorType_SEMANTIC,
 	ErrorType_RUNTIME,
 	ErrorType_INTERNAL,
-	ErrorType_UNSPECIFIED = 0,
+	ErrorType_UNSPECIFIED,
 } ErrorType;
 
 typedef struct Error Error;
-- 
2.43.0


From 06e5bc418213b61472d491b6a3f267d58547b65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 30/46] fix: Executable_Equiv truncates the operands it
 compares

---
 src/lib/executable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 0d35f4c..256fbe0 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -377,11 +377,11 @@ _Bool Executable_Equiv(Executable *exe1, Executable *exe2, FILE *log, const char
 				case OPTP_IDX:
 				case OPTP_INT:
 				{
-					int v1 = exe1_opv[opno].as_int;
-					int v2 = exe2_opv[opno].as_int;
+					long long int v1 = exe1_opv[opno].as_int;
+					long long int v2 = exe2_opv[opno].as_int;
 					if(v1 != v2) {
 						if(log != NULL)
-							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%d != %d)\n", 
+							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%lld != %lld)\n", 
 								log_prefix, Executable_GetOpcodeName(exe1_opcode), idx, opno, v1, v2);
 						return false;
 					}
-- 
2.43.0


From 6182ca3018e8564fad624b05c4b358916a956f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 31/46] fix: 0.0 and -0.0 are equal but have different hashes

---
 src/lib/objects/o_float.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_float.c b/src/lib/objects/o_float.c
index 567b2a2..282f3a5 100644
--- a/src/lib/objects/o_float.c
+++ b/src/lib/objects/o_float.c
@@ -61,7 +61,11 @@ static int hash(Object *self)
 
 	FloatObject *iobj = (FloatObject*) self;
 
-	return hashbytes((unsigned char*) &iobj->val, sizeof(iobj->val));
+	// Equal values must have the same hash, so
+	// -0.0 needs to be considered as 0.0.
+	double val = (iobj->val == 0) ? 0 : iobj->val;
+
+	return hashbytes((unsigned char*) &val, sizeof(val));
 }
 
 static Object *copy(Object *self, Heap *heap, Error *err)
-- 
2.43.0


From 81f3198cd8abef7d05e81fa2b1bf8a6816fe0547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 32/46] fix: none, true and false expressions have the location
 of the token after them

---
 src/lib/compiler/parse.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 07a951c..7a865f5 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1342,8 +1342,6 @@ static Node *parse_primary_expresion(Context *ctx)
 
 		case TKWNONE:
 		{
-			next(ctx);
-
 			ExprNode *node;
 			{
 				node = BPAlloc_Malloc(ctx->alloc, sizeof(ExprNode));
@@ -1362,13 +1360,13 @@ static Node *parse_primary_expresion(Context *ctx)
 				node->kind = EXPR_NONE;
 			}
 
+			next(ctx);
+
 			return (Node*) node;
 		}
 
 		case TKWTRUE:
 		{
-			next(ctx);
-
 			ExprNode *node;
 			{
 				node = BPAlloc_Malloc(ctx->alloc, sizeof(ExprNode));
@@ -1387,13 +1385,13 @@ static Node *parse_primary_expresion(Context *ctx)
 				node->kind = EXPR_TRUE;
 			}
 
+			next(ctx);
+
 			return (Node*) node;
 		}
 
 		case TKWFALSE:
 		{
-			next(ctx);
-
 			ExprNode *node;
 			{
 				node = BPAlloc_Malloc(ctx->alloc, sizeof(ExprNode));
@@ -1411,6 +1409,8 @@ static Node *parse_primary_expresion(Context *ctx)
 				node->base.length = ctx->token->length;
 				node->kind = EXPR_FALSE;
 			}
+
+			next(ctx);
 			return (Node*) node;
 		}
 
-- 
2.43.0


From 402b07b2a2d28426b086d80a1f745c3d9da09036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:02 +0000
Subject: [PATCH 33/46] fix: the diagram generator overflows its tuple buffer
 and misformats integers and strings

---
 src/lib/compiler/graphviz.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c163c6b..14f5bc0 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -130,7 +130,6 @@ static bool Buffer_VAppendF(Buffer *buf, Error *error, const char *fmt, va_list
 		return false;
 
 	vsnprintf(buf->data + buf->used, buf->size - buf->used, fmt, args);
-	va_end(args);
 
 	buf->used += required;
 	return true;
@@ -195,7 +194,9 @@ static void flattenTupleTree(ExprNode *root, ExprNode *tuple[], int max, int *co
 
 		if(max == *count)
 		{
-			assert(0); // TODO: Do something smart instead
+			// The buffer is full, so the rest of the
+			// tuple is left out of the diagram.
+			return;
 		}
 
 		tuple[(*count)++] = root;
@@ -301,7 +302,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_INT:
 		{
 			IntExprNode *p = (IntExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"%d\"];\n", name, p->val);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%lld\"];\n", name, p->val);
 			return;
 		}
 
@@ -325,7 +326,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 				while (i < len && (s[i] != '"' && s[i] != '\\' && s[i] != '\n' && s[i] != '\t'))
 					i++;
 				size_t end = i;
-				GraphViz_AppendHead(ctx, "%.*s", end - start, s + start);
+				GraphViz_AppendHead(ctx, "%.*s", (int) (end - start), s + start);
 				if (i == len)
 					break;
 				switch (s[i]) {
-- 
2.43.0


From 30077bdd848c9b538c6d94fc7011e85b62a29f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 34/46] fix: comparing incomparable objects is a runtime error

---
 src/lib/objects/objects.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 13a18f7..1229c90 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -287,7 +287,7 @@ _Bool Object_Compare(Object *obj1, Object *obj2, Error *error)
 
 	if(obj1->type->op_eql == NULL)
 	{
-		Error_Report(error, 0, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
+		Error_Report(error, ErrorType_RUNTIME, "Object %s doesn't implement %s", Object_GetName(obj1), __func__);
 		return 0;
 	}
 
-- 
2.43.0


From 38c7b3a4dadccf0321e848f46640e92ebb1e4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 35/46] fix: a sum type check goes on after its first member
 failed with an error

---
 src/lib/objects/o_sum.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/objects/o_sum.c b/src/lib/objects/o_sum.c
index 53c7055..31f036f 100644
--- a/src/lib/objects/o_sum.c
+++ b/src/lib/objects/o_sum.c
@@ -55,8 +55,11 @@ istypeof(Object *self,
          Error  *error)
 {
     SumObject *sum = (SumObject*) self;
-    return Object_IsTypeOf(sum->items[0], other, heap, error)
-        || Object_IsTypeOf(sum->items[1], other, heap, error);
+    if (Object_IsTypeOf(sum->items[0], other, heap, error))
+        return true;
+    if (error->occurred)
+        return false;
+    return Object_IsTypeOf(sum->items[1], other, heap, error);
 }
 
 static void walk(Object *self, void (*callback)(Object **referer, void *userp), void *userp)
-- 
2.43.0


From bf0029b743046765a8ad437fd1735aca99a164a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 36/46] fix: calling with an empty stack reports two errors

---
 src/lib/run.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 78457b1..ae52340 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -827,10 +827,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(argc >= 0 && retc > 0);
 
 			Object *callable;
-			if (!Runtime_Pop(runtime, error, &callable, 1)) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
+			if (!Runtime_Pop(runtime, error, &callable, 1))
 				return 0;
-			}
 
 			Object *argv[32];
 
-- 
2.43.0


From f5275b0ce1f0b8f134e03e85fe858c09cd99dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 37/46] fix: a failed variable lookup is taken for an undefined
 variable

---
 src/lib/runtime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 28ff69a..41bf027 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -569,6 +569,8 @@ bool Runtime_GetVariable(Runtime *runtime, Error *error, const char *name, Objec
 			continue;
 
 		obj = Object_Select(locations[p], key, heap, error);
+		if(obj == NULL && error->occurred)
+			return false;
 	}
 
 	*value = obj;
-- 
2.43.0


From 2d66f9a0c00ebe7fed6ca6dc24efce65e08464d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 38/46] fix: a failed diagram leaves the location of the error
 unset

---
 src/lib/diagram.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/diagram.c b/src/lib/diagram.c
index b02dc3a..a30948c 100644
--- a/src/lib/diagram.c
+++ b/src/lib/diagram.c
@@ -27,6 +27,8 @@ static char *diagramSourceAST(Source *source, Error *error,
     }
 
     char *out = graphviz(ast, error, NULL);
+    if(out == NULL)
+        *error_offset = -1;
 
     BPAlloc_Free(alloc);
     return out;
@@ -36,8 +38,10 @@ char *diagramFileAST(const char *file, Error *error,
 					 int *error_offset)
 {
 	Source *source = Source_FromFile(file, error);
-	if (source == NULL)
+	if (source == NULL) {
+		*error_offset = -1;
 		return NULL;
+	}
 
 	char *out = diagramSourceAST(source, error, error_offset);
 
@@ -49,8 +53,10 @@ char *diagramStringAST(const char *str, Error *error,
 					 int *error_offset)
 {
 	Source *source = Source_FromString(NULL, str, -1, error);
-	if (source == NULL)
+	if (source == NULL) {
+		*error_offset = -1;
 		return NULL;
+	}
 
 	char *out = diagramSourceAST(source, error, error_offset);
 
-- 
2.43.0


From daa72b32616409e30d497b3697653449f6f7ec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:25 +0000
Subject: [PATCH 39/46] fix: running out of memory for a map is reported up to
 three times

---
 src/lib/objects/o_map.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index e74c464..25dbe88 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -182,10 +182,15 @@ Object *Object_NewMap(int num, Heap *heap, Error *error)
 		obj->mapper_size = mapper_size;
 		obj->count = 0;
 		obj->mapper = Heap_RawMalloc(heap, sizeof(int) * mapper_size, error);
-		obj->keys   = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
-		obj->vals   = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->mapper == NULL)
+			return NULL;
+
+		obj->keys = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->keys == NULL)
+			return NULL;
 
-		if(obj->mapper == NULL || obj->keys == NULL || obj->vals == NULL)
+		obj->vals = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->vals == NULL)
 			return NULL;
 	}
 
@@ -279,11 +284,16 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 	int new_mapper_size = map->mapper_size << 1;
 	int new_capacity = calc_capacity(new_mapper_size);
 
-	int *mapper   = Heap_RawMalloc(heap, sizeof(int) * new_mapper_size, error);
+	int *mapper = Heap_RawMalloc(heap, sizeof(int) * new_mapper_size, error);
+	if(mapper == NULL)
+		return 0;
+
 	Object **keys = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
-	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
+	if(keys == NULL)
+		return 0;
 
-	if(mapper == NULL || keys == NULL || vals == NULL)
+	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
+	if(vals == NULL)
 		return 0;
 
 	for(int i = 0; i < map->count; i += 1)
-- 
2.43.0


From a4578b832647a0133aae095a7667b8882bbfc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:42 +0000
Subject: [PATCH 40/46] fix: stack traces give the location of the instruction
 after the one that failed

---
 src/lib/runtime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 41bf027..9fe21c8 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -157,7 +157,9 @@ static int getFrameOffset(Frame *frame)
 		case FrameType_NORMAL: 
 		{
 			NormalFrame *normal_frame = (NormalFrame*) frame;
-			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->index);
+			// The index is the one of the next instruction.
+			int index = MAX(0, normal_frame->index - 1);
+			return Executable_GetInstrOffset(normal_frame->exe, index);
 		}
 
 		case FrameType_NATIVE: return -1;
-- 
2.43.0


From fd2098dcaecda14dea446b49cccdb6bb88536736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 41/46] fix: a growing map probes for a slot the way lookups do

The probe sequence of grow() shifted a signed hash: with a negative hash it
differed from that of insert and select, and could cycle without meeting an
empty slot.
---
 src/lib/objects/o_map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index 25dbe88..2f23eee 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -314,7 +314,7 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 		int hash = Object_Hash(keys[i]);
 
 		int mask = new_mapper_size - 1;
-		int pert = hash;
+		unsigned int pert = hash;
 			
 		int j = hash & mask;
 
-- 
2.43.0


From 84ca34a53651e993fe2a1e5bfc378f1406686ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:54 +0000
Subject: [PATCH 42/46] fix: strings that differ after a zero byte are equal

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 9f70126..1f5feb9 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -212,7 +212,7 @@ static _Bool op_eql(Object *self, Object *other)
 	StringObject *s1 = (StringObject*) self;
 	StringObject *s2 = (StringObject*) other;
 
-	_Bool match = s1->bytes == s2->bytes && !strncmp(s1->body, s2->body, s1->bytes);
+	_Bool match = s1->bytes == s2->bytes && !memcmp(s1->body, s2->body, s1->bytes);
 
 	return match;
 }
-- 
2.43.0


From 325a7a1e39bd626bf03a51df58a8d89eb3a2aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:54 +0000
Subject: [PATCH 43/46] fix: strings are printed up to their first zero byte
 only

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 1f5feb9..fdb0cb7 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -225,7 +225,7 @@ static void print(Object *obj, FILE *fp)
 
 	StringObject *str = (StringObject*) obj;
 
-	fprintf(fp, "%.*s", str->bytes, str->body);
+	fwrite(str->body, 1, str->bytes, fp);
 }
 
 static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
-- 
2.43.0


From 3c2df45fdd7fee11534e0aed65c0e988898f8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:49 +0000
Subject: [PATCH 44/46] fix: close the accepted socket when its results cannot
 be made

---
 src/lib/builtins/net.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 703f2b1..46cf89d 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -176,7 +176,10 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
+	int retc = returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
+	if (retc < 0)
+		close(new_fd);
+	return retc;
 }
 
 
-- 
2.43.0


From 65f295baa0735683a087c6adaaf0fe156a5975a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:07 +0000
Subject: [PATCH 45/46] fix: draw both sides of -> in the diagram of an AST

---
 src/lib/compiler/graphviz.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 14f5bc0..6833f5b 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -282,7 +282,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
-		case EXPR_ASS: case EXPR_ARW:
+		case EXPR_ASS:
 		case EXPR_NOT: case EXPR_MOD:
 		case EXPR_POS: case EXPR_NEG:
 		case EXPR_ADD: case EXPR_SUB:
@@ -402,10 +402,11 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		funcExprToGraphViz(ctx, (FuncExprNode*) expr, "???", count, name);
 		return;
 
+		case EXPR_ARW:
 		case EXPR_SELECT:
 		{
 			IndexSelectionExprNode *sel = (IndexSelectionExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"Select\"];\n", name);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, expr->kind == EXPR_ARW ? exprkind_to_label(expr->kind) : "Select");
 			childToGraphViz(ctx, sel->set, count, name);
 			childToGraphViz(ctx, sel->idx, count, name);
 			return;
-- 
2.43.0


From c22ab0d627ab2858cdea40ece346931a4e2cb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:07 +0000
Subject: [PATCH 46/46] fix: draw the left side of a multiple assignment in the
 diagram of an AST

---
 src/lib/compiler/graphviz.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 6833f5b..c5f1abe 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -231,6 +231,7 @@ static const char *exprkind_to_label(ExprKind kind)
 		case EXPR_AND: return "and";
 		case EXPR_OR : return "or";
 		case EXPR_ASS: return "=";
+		case EXPR_PAIR: return ",";
 		case EXPR_ARW: return "->";
 		default:
 		UNREACHABLE;
@@ -277,9 +278,6 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 	switch(expr->kind)
 	{
 		case EXPR_PAIR:
-		UNREACHABLE;
-		return; // For the compiler warning.
-
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
 		case EXPR_ASS:
-- 
2.43.0

